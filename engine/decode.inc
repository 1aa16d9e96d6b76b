enum Intr {
    I_NONE, I_NOP, I_FCEIL, I_FFLOOR, I_TYPEID, I_BEGINCATCH, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_CTPOP, I_CTLZ, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_FSHL, I_FSHR, I_BSWAP, I_BITREV, I_ABS,
    I_PTESTZ, I_PTESTC, I_PTESTNZC, I_PSHUFB, I_MALLOC, I_CALLOC, I_FREE, I_USUBSAT, I_UADDSAT, I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO,
    I_VROR, I_VRAND, I_VRADD, I_STRLEN, I_MEMCMP, I_MEMCHR, I_THROW, I_ABORT, I_EXPECT, I_GUARDA, I_RET0, I_STRCMP, I_PMOVMSKB,
    I_SYM_BITS, I_SYM_ASSUME, I_SYM_ASSERT, I_SYM_REACH, I_SYM_CONC, I_SYM_SIMP, I_SYM_VLIST, I_SYM_VCONT, I_SYM_VCOUNT, I_SYM_PARAM, I_SYM_POLICY, I_SYM_TAGASSERT, I_SYM_NOTE, I_SYM_ISSYM, I_SYM_NATIVE, I_SYM_DUMP,
    I_SYM_ALLOWTHROW, I_SYM_ITE, I_SYM_UF, I_SYM_DISTINCT, I_SYM_VEACH, I_TOLOWER, I_TOUPPER, I_ISDIGIT, I_FABS, I_SYM_OR, I_SYM_AND, I_SYM_HINTEQ, I_SYM_PRUNE
};
struct NameIntr { const char* n; Intr i; bool prefix; };
static const NameIntr nameIntr[] = {
    {"llvm.memcpy", I_MEMCPY, true}, {"llvm.memmove", I_MEMMOVE, true}, {"llvm.memset", I_MEMSET, true},
    {"memcpy", I_MEMCPY, false}, {"memmove", I_MEMMOVE, false}, {"memset", I_MEMSET, false},
    {"llvm.ctpop", I_CTPOP, true}, {"llvm.ctlz", I_CTLZ, true},
    {"llvm.umin", I_UMIN, true}, {"llvm.umax", I_UMAX, true}, {"llvm.smin", I_SMIN, true}, {"llvm.smax", I_SMAX, true},
    {"llvm.fshl", I_FSHL, true}, {"llvm.fshr", I_FSHR, true}, {"llvm.bswap", I_BSWAP, true}, {"llvm.bitreverse", I_BITREV, true}, {"llvm.abs", I_ABS, true},
    {"llvm.x86.sse41.ptestz", I_PTESTZ, true}, {"llvm.x86.avx.ptestz", I_PTESTZ, true}, {"llvm.x86.sse41.ptestc", I_PTESTC, true}, {"llvm.x86.avx.ptestc", I_PTESTC, true}, {"llvm.x86.sse41.ptestnzc", I_PTESTNZC, true},
    {"llvm.x86.ssse3.pshuf.b.128", I_PSHUFB, true}, {"llvm.x86.avx2.pshuf.b", I_PSHUFB, true},
    {"llvm.x86.sse2.pmovmskb", I_PMOVMSKB, true}, {"llvm.x86.avx2.pmovmskb", I_PMOVMSKB, true},
    {"llvm.lifetime", I_NOP, true}, {"llvm.dbg", I_NOP, true}, {"llvm.invariant", I_NOP, true}, {"llvm.assume", I_NOP, true}, {"llvm.experimental.noalias", I_NOP, true}, {"llvm.prefetch", I_NOP, true}, {"llvm.stacksave", I_RET0, true}, {"llvm.stackrestore", I_NOP, true},
    {"llvm.usub.sat", I_USUBSAT, true}, {"llvm.uadd.sat", I_UADDSAT, true},
    {"llvm.uadd.with.overflow", I_UADDO, true}, {"llvm.usub.with.overflow", I_USUBO, true}, {"llvm.umul.with.overflow", I_UMULO, true}, {"llvm.sadd.with.overflow", I_SADDO, true}, {"llvm.ssub.with.overflow", I_SSUBO, true}, {"llvm.smul.with.overflow", I_SMULO, true},
    {"llvm.vector.reduce.or", I_VROR, true}, {"llvm.vector.reduce.and", I_VRAND, true}, {"llvm.vector.reduce.add", I_VRADD, true},
    {"llvm.expect", I_EXPECT, true},
    {"llvm.trap", I_ABORT, true},
    {"malloc", I_MALLOC, false}, {"_Znwm", I_MALLOC, false}, {"_Znam", I_MALLOC, false}, {"_ZnwmSt11align_val_t", I_MALLOC, false}, {"_ZnamSt11align_val_t", I_MALLOC, false}, {"calloc", I_CALLOC, false}, {"_ZnwmRKSt9nothrow_t", I_MALLOC, false},
    {"free", I_FREE, false}, {"_ZdlPv", I_FREE, false}, {"_ZdaPv", I_FREE, false}, {"_ZdlPvm", I_FREE, false}, {"_ZdaPvm", I_FREE, false}, {"_ZdlPvSt11align_val_t", I_FREE, false}, {"_ZdlPvmSt11align_val_t", I_FREE, false}, {"_ZdlPvRKSt9nothrow_t", I_FREE, false},
    {"__cxa_guard_acquire", I_GUARDA, false}, {"__cxa_guard_release", I_NOP, false}, {"__cxa_atexit", I_RET0, false}, {"atexit", I_RET0, false}, {"__cxa_guard_abort", I_NOP, false},
    {"_ZNSt8ios_base4InitC1Ev", I_NOP, false}, {"_ZNSt8ios_base4InitD1Ev", I_NOP, false},
    {"__cxa_throw", I_THROW, false}, {"_ZSt20__throw_length_errorPKc", I_THROW, false}, {"_ZSt20__throw_out_of_range", I_THROW, true}, {"_ZSt24__throw_out_of_range_fmtPKcz", I_THROW, false}, {"_ZSt17__throw_bad_allocv", I_THROW, false}, {"_ZSt19__throw_logic_errorPKc", I_THROW, false}, {"_ZSt28__throw_bad_array_new_lengthv", I_THROW, false}, {"_ZSt16__throw_bad_castv", I_THROW, false}, {"_ZSt25__throw_bad_function_callv", I_THROW, false},{"_ZSt24__throw_invalid_argumentPKc", I_THROW, false},
    {"__cxa_rethrow", I_THROW, false}, {"abort", I_ABORT, false}, {"__assert_fail", I_ABORT, false}, {"_ZSt9terminatev", I_ABORT, false}, {"exit", I_ABORT, false}, {"__clang_call_terminate", I_ABORT, false},
    {"__cxa_allocate_exception", I_MALLOC, false}, {"__cxa_free_exception", I_FREE, false}, {"_ZNSt13runtime_errorC1EPKc", I_NOP, false}, {"_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false}, {"_ZNSt16invalid_argumentC1EPKc", I_NOP, false},{"_ZNSt12domain_errorC1EPKc", I_NOP, false},{"_ZNSt12domain_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false},{"_ZNSt12domain_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false},{"_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false},{"_ZNSt16invalid_argumentC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false},{"_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false},{"_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false},{"_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false},{"_ZNSt12out_of_rangeC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false},{"_ZNSt12length_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false},{"_ZNSt12length_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", I_NOP, false},{"_ZNSt12out_of_rangeC1EPKc", I_NOP, false},{"_ZNSt12length_errorC1EPKc", I_NOP, false},{"_ZNSt11logic_errorC1EPKc", I_NOP, false},
    {"strlen", I_STRLEN, false}, {"memcmp", I_MEMCMP, false}, {"bcmp", I_MEMCMP, false}, {"memchr", I_MEMCHR, false}, {"strcmp", I_STRCMP, false},
    {"tolower", I_TOLOWER, false}, {"toupper", I_TOUPPER, false}, {"isdigit", I_ISDIGIT, false},
    {"llvm.fabs", I_FABS, true}, {"llvm.threadlocal.address", I_BEGINCATCH, true}, {"llvm.eh.typeid.for", I_TYPEID, true}, {"__cxa_begin_catch", I_BEGINCATCH, false}, {"__cxa_end_catch", I_NOP, false}, {"llvm.ceil", I_FCEIL, true}, {"llvm.floor", I_FFLOOR, true},
    {"sym_bits", I_SYM_BITS, false}, {"sym_assume", I_SYM_ASSUME, false}, {"sym_assert", I_SYM_ASSERT, false}, {"sym_reach", I_SYM_REACH, false}, {"sym_concretize", I_SYM_CONC, false},
    {"sym_simplify", I_SYM_SIMP, false}, {"sym_vlist", I_SYM_VLIST, false}, {"sym_vcontains", I_SYM_VCONT, false}, {"sym_vcount", I_SYM_VCOUNT, false}, {"sym_param", I_SYM_PARAM, false},
    {"sym_policy", I_SYM_POLICY, false}, {"sym_assert_tag", I_SYM_TAGASSERT, false}, {"sym_note", I_SYM_NOTE, false}, {"sym_issym", I_SYM_ISSYM, false}, {"sym_native", I_SYM_NATIVE, false}, {"sym_dump", I_SYM_DUMP, false}, {"sym_allow_throw", I_SYM_ALLOWTHROW, false},
    {"sym_ite", I_SYM_ITE, false}, {"sym_uf", I_SYM_UF, false}, {"sym_or", I_SYM_OR, false}, {"sym_hint_equal", I_SYM_HINTEQ, false}, {"sym_prune", I_SYM_PRUNE, false}, {"sym_and", I_SYM_AND, false},
};
static std::set<std::string> stubFns; // functions replaced by a harness stub of the name stub_<mangled>

static int funcOf(const Function* F) {
    auto it = fIndex.find(F);
    if (it != fIndex.end()) return it->second;
    Func* f = new Func; f->name = F->getName().str(); f->F = F; f->id = funcs.size();
    f->intr = 0;
    for (auto& x : nameIntr) if (x.prefix ? f->name.rfind(x.n, 0) == 0 : f->name == x.n) { f->intr = x.i; break; }
    f->decl = F->isDeclaration();
    funcs.push_back(f); fIndex[F] = f->id;
    return f->id;
}

struct Decoder {
    const Function& F; Func& f;
    std::unordered_map<const Value*, int> reg;
    std::unordered_map<const Value*, int> cst;
    std::unordered_map<const BasicBlock*, int> firstBlk, lastBlk;
    Decoder(const Function& F_, Func& f_) : F(F_), f(f_), DT(const_cast<Function&>(F_)), LI(DT) {}
    int regOf(const Value* v) {
        auto it = reg.find(v);
        if (it != reg.end()) return it->second;
        int r = f.nregs++; reg[v] = r; f.rw.push_back(bw(v->getType())); return r;
    }
    int op(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto it = cst.find(v);
            if (it != cst.end()) return it->second;
            f.consts.push_back(constVal(c));
            int r = -(int)f.consts.size(); cst[v] = r; return r;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return imm(0);
        return regOf(v);
    }
    int imm(uint64_t c) { f.consts.push_back(Val(c)); return -(int)f.consts.size(); }
    // ---- ordering: loop-contiguous topological order
    DominatorTree DT; LoopInfo LI; std::map<const BasicBlock*, int> bpos;
    // Is the word tested by this cttz consumed (bit by bit) by one of the enclosing loops?  Returns that loop.
    bool sliceHits(const Value* v, const Loop* L, std::set<const Value*>& seen, std::vector<const PHINode*>& phis, std::vector<const LoadInst*>& loads) {
        if (!seen.insert(v).second) return false;
        auto* I = dyn_cast<Instruction>(v);
        if (!I || !L->contains(I)) return false;
        if (auto* P = dyn_cast<PHINode>(I)) { if (P->getParent() == L->getHeader()) { phis.push_back(P); return true; } }
        if (auto* Ld = dyn_cast<LoadInst>(I)) { loads.push_back(Ld); return true; }
        if (auto* II = dyn_cast<IntrinsicInst>(I)) if (II->getIntrinsicID() == Intrinsic::cttz) return false;
        if (isa<CallBase>(I) && !isa<IntrinsicInst>(I)) return false;
        if (isa<GetElementPtrInst>(I)) return false;
        for (auto& o : I->operands()) sliceHits(o.get(), L, seen, phis, loads);
        return true;
    }
    const Loop* consumingLoop(const IntrinsicInst* II) {
        for (const Loop* L = LI.getLoopFor(II->getParent()); L; L = L->getParentLoop()) {
            std::set<const Value*> seen; std::vector<const PHINode*> phis; std::vector<const LoadInst*> loads;
            sliceHits(II->getArgOperand(0), L, seen, phis, loads);
            for (auto* P : phis) for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
                if (!L->contains(P->getIncomingBlock(i))) continue;
                std::set<const Value*> s2; std::vector<const PHINode*> p2; std::vector<const LoadInst*> l2;
                sliceHits(P->getIncomingValue(i), L, s2, p2, l2);
                // the back-edge value must be recomputed from the phi itself (x & (x-1), x ^ lsb, ...)
                for (auto* q : p2) if (q == P && P->getIncomingValue(i) != P) return L;
                if (s2.count(II->getArgOperand(0))) return L;
            }
            for (auto* ld : loads) {
                const Value* base = ld->getPointerOperand()->stripInBoundsOffsets();
                for (auto* B : L->blocks()) for (auto& I : *B) if (auto* S = dyn_cast<StoreInst>(&I)) if (S->getPointerOperand()->stripInBoundsOffsets() == base) return L;
            }
        }
        return nullptr;
    }
    // A loop-exit branch that tests a bit set for emptiness: the executor splits it bit by bit.
    static bool zeroSrcs(const Value* v, std::vector<const Value*>& out, int depth) {
        if (auto* B = dyn_cast<BinaryOperator>(v)) if (B->getOpcode() == Instruction::Or && depth < 4) return zeroSrcs(B->getOperand(0), out, depth + 1) && zeroSrcs(B->getOperand(1), out, depth + 1);
        if (isa<Constant>(v)) return false;
        out.push_back(v); return true;
    }
    const Loop* zeroTestLoop(const BranchInst* br, std::vector<const Value*>& srcs, bool& trueIfNonzero) {
        if (!br->isConditional()) return nullptr;
        const Loop* L = LI.getLoopFor(br->getParent());
        if (!L) return nullptr;
        bool e0 = L->contains(br->getSuccessor(0)), e1 = L->contains(br->getSuccessor(1));
        if (e0 == e1) return nullptr;
        auto* C = dyn_cast<ICmpInst>(br->getCondition());
        if (!C || !C->isEquality()) return nullptr;
        auto* K = dyn_cast<ConstantInt>(C->getOperand(1)); if (!K || !K->isZero()) return nullptr;
        const Value* v = C->getOperand(0);
        trueIfNonzero = C->getPredicate() == ICmpInst::ICMP_NE;
        if (auto* Z = dyn_cast<ZExtInst>(v)) v = Z->getOperand(0);
        if (auto* CB = dyn_cast<CallBase>(v)) {
            const Function* F2 = CB->getCalledFunction();
            if (!F2 || !F2->getName().contains("ptestz") || (CB->getArgOperand(0) != CB->getArgOperand(1) && !(isa<Constant>(CB->getArgOperand(1)) && cast<Constant>(CB->getArgOperand(1))->isAllOnesValue()))) return nullptr;
            srcs.push_back(CB->getArgOperand(0)); trueIfNonzero = !trueIfNonzero;
        } else {
            if (!v->getType()->isIntegerTy() || bw(v->getType()) < 32) return nullptr;
            if (!zeroSrcs(v, srcs, 0)) return nullptr;
        }
        bool nzInside = trueIfNonzero ? e0 : e1;
        if (!nzInside) return nullptr;
        bool has = false; // only loops that also pick the lowest bit
        for (auto* B : L->blocks()) for (auto& I : *B) if (auto* II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::cttz) has = true;
        return has ? L : nullptr;
    }
    void orderBlocks(std::vector<const BasicBlock*>& out, std::map<const BasicBlock*, int>& loopEnd) {
        std::function<void(const Loop*, const BasicBlock*, std::vector<const BasicBlock*>&)> rec;
        rec = [&](const Loop* L, const BasicBlock* entry, std::vector<const BasicBlock*>& res) {
            // nodes: blocks directly in L, or child loops (represented by header)
            auto rep = [&](const BasicBlock* b) -> const BasicBlock* {
                const Loop* l = LI.getLoopFor(b);
                while (l && l->getParentLoop() != L && l != L) l = l->getParentLoop();
                if (l == L) return b;
                if (!l) return nullptr; // outside
                return l->getHeader();
            };
            std::set<const BasicBlock*> vis; std::vector<const BasicBlock*> post;
            std::function<void(const BasicBlock*)> dfs = [&](const BasicBlock* r) {
                if (!vis.insert(r).second) return;
                const Loop* l = LI.getLoopFor(r);
                std::vector<const BasicBlock*> members;
                if (l == L) members.push_back(r);
                else { for (auto* b : l->blocks()) members.push_back(b); }
                for (auto* m : members) for (const BasicBlock* sc : successors(m)) {
                    if (L && !L->contains(sc)) continue;
                    if (L && sc == L->getHeader()) continue;
                    const BasicBlock* q = rep(sc);
                    if (!q || q == r) continue;
                    dfs(q);
                }
                post.push_back(r);
            };
            dfs(entry);
            for (auto it = post.rbegin(); it != post.rend(); ++it) {
                const Loop* l = LI.getLoopFor(*it);
                if (l == L) res.push_back(*it);
                else rec(l, *it, res);
            }
        };
        // entry block is never in a loop header in LLVM
        rec(nullptr, &F.getEntryBlock(), out);
        std::map<const BasicBlock*, int> pos; for (size_t i = 0; i < out.size(); i++) pos[out[i]] = i;
        bpos = pos;
        for (auto* b : out) {
            const Loop* l = LI.getLoopFor(b);
            if (!l) { loopEnd[b] = -1; continue; }
            int e = 0; for (auto* x : l->blocks()) if (pos.count(x)) e = std::max(e, pos[x]);
            loopEnd[b] = e;
        }
    }
    Inst base(Op o, const Instruction* I) { Inst x; x.op = o; x.llvmInst = I; if (I && !I->getType()->isVoidTy()) { x.dst = regOf(I); x.w = bw(I->getType()); } return x; }
    void vecInfo(Inst& x, Type* t) { if (auto* v = dyn_cast<FixedVectorType>(t)) { x.vec = true; x.ew = bw(v->getElementType()); } else x.ew = bw(t); }
    void run() {
        f.nargs = F.arg_size();
        for (auto& a : F.args()) regOf(&a);
        std::vector<const BasicBlock*> order; std::map<const BasicBlock*, int> loopEnd;
        orderBlocks(order, loopEnd);
        // create blocks
        for (size_t bi = 0; bi < order.size(); bi++) {
            const BasicBlock* B = order[bi];
            std::vector<const Instruction*> list;
            for (auto& I : *B) if (!isa<PHINode>(I)) list.push_back(&I);
            // hoist cttz to right after its operand's definition
            for (size_t i = 0; i < list.size(); i++) {
                auto* II = dyn_cast<IntrinsicInst>(list[i]);
                if (!II || II->getIntrinsicID() != Intrinsic::cttz) continue;
                const Value* o = II->getArgOperand(0);
                size_t j = i;
                while (j > 0 && list[j - 1] != o && !(isa<IntrinsicInst>(list[j - 1]) && cast<IntrinsicInst>(list[j - 1])->getIntrinsicID() == Intrinsic::cttz)) j--;
                const Instruction* t = list[i];
                list.erase(list.begin() + i); list.insert(list.begin() + j, t);
            }
            firstBlk[B] = f.blocks.size();
            f.blocks.emplace_back();
            Block* cur = &f.blocks.back();
            int sub = 0;
            cur->order = (int)bi * 1000 + sub; cur->bb = bi;
            unsigned np = 0; for (auto* p : predecessors(B)) { (void)p; np++; }
            cur->merge = np >= 2;
            for (auto* p : predecessors(B)) if (LI.getLoopFor(p) && !LI.getLoopFor(p)->contains(B)) cur->merge = true;
            for (const Instruction* I : list) {
                auto* II = dyn_cast<IntrinsicInst>(I);
                if (II && II->getIntrinsicID() == Intrinsic::cttz) {
                    Inst x; x.op = O_FALL; x.t0 = f.blocks.size();
                    cur->ins.push_back(x);
                    f.blocks.emplace_back(); cur = &f.blocks.back();
                    cur->order = (int)bi * 1000 + ++sub; cur->bb = bi; cur->cttz = true; cur->merge = true;
                    if (const Loop* L = consumingLoop(II)) { int e = 0; for (auto* x : L->blocks()) if (bpos.count(x)) e = std::max(e, bpos[x]); cur->park = e * 1000 + 905 - 10 * (int)L->getLoopDepth(); }
                }
                std::vector<const Value*> zsrc; bool zpol = false; const Loop* zl = nullptr;
                if (auto* br = dyn_cast<BranchInst>(I)) if ((zl = zeroTestLoop(br, zsrc, zpol))) {
                    Inst x; x.op = O_FALL; x.t0 = f.blocks.size();
                    cur->ins.push_back(x);
                    f.blocks.emplace_back(); cur = &f.blocks.back();
                    cur->order = (int)bi * 1000 + ++sub; cur->bb = bi; cur->cttz = true; cur->merge = true;
                    int e = 0; for (auto* x : zl->blocks()) if (bpos.count(x)) e = std::max(e, bpos[x]);
                    cur->park = e * 1000 + 905 - 10 * (int)zl->getLoopDepth();
                }
                decodeInst(I, *cur);
                if (zl) { Inst& x = cur->ins.back(); for (auto* v : zsrc) { x.args.push_back(op(v)); x.aw.push_back(bw(v->getType())); } x.sub = zpol; }
            }
            lastBlk[B] = f.blocks.size() - 1;
        }
        // every loop with several back edges gets one synthetic latch, so that states finish an iteration together
        std::map<const BasicBlock*, int> latch;
        for (auto* H : order) {
            const Loop* L = LI.getLoopFor(H);
            if (!L || L->getHeader() != H) continue;
            unsigned nb = 0; for (auto* p : predecessors(H)) if (L->contains(p)) nb++;
            if (nb < 2 && L->getNumBlocks() == 1) continue;
            Inst x; x.op = O_FALL; x.t0 = firstBlk[H];
            latch[H] = f.blocks.size();
            f.blocks.emplace_back(); Block& c = f.blocks.back();
            c.ins.push_back(x); c.merge = true; c.bb = loopEnd[H]; c.order = loopEnd[H] * 1000 + 900 - 10 * (int)L->getLoopDepth();
        }
        auto target = [&](const BasicBlock* B, const BasicBlock* S) { auto it = latch.find(S); return it != latch.end() && LI.getLoopFor(S)->contains(B) ? it->second : firstBlk[S]; };
        // fix successors / edges
        for (size_t bi = 0; bi < order.size(); bi++) {
            const BasicBlock* B = order[bi];
            Block& blk = f.blocks[lastBlk[B]];
            Inst& t = blk.ins.back();
            const Instruction* TI = B->getTerminator();
            auto edge = [&](const BasicBlock* S) {
                std::vector<Move2> mv;
                for (auto& P : S->phis()) { int src = op(P.getIncomingValueForBlock(B)); mv.push_back({regOf(&P), src}); }
                f.edges.push_back(mv); return (int)f.edges.size() - 1;
            };
            if (auto* br = dyn_cast<BranchInst>(TI)) {
                t.t0 = target(B, br->getSuccessor(0)); t.e0 = edge(br->getSuccessor(0));
                if (br->isConditional()) { t.t1 = target(B, br->getSuccessor(1)); t.e1 = edge(br->getSuccessor(1)); }
            } else if (auto* sw = dyn_cast<SwitchInst>(TI)) {
                t.t0 = target(B, sw->getDefaultDest()); t.e0 = edge(sw->getDefaultDest());
                for (auto& c : sw->cases()) { t.imms.push_back(c.getCaseValue()->getZExtValue()); t.targets.push_back(target(B, c.getCaseSuccessor())); t.edges.push_back(edge(c.getCaseSuccessor())); }
            } else if (auto* iv = dyn_cast<InvokeInst>(TI)) {
                t.t0 = target(B, iv->getNormalDest()); t.e0 = edge(iv->getNormalDest());
                t.t1 = target(B, iv->getUnwindDest()); t.e1 = edge(iv->getUnwindDest());
            }
        }
        // a "multi-edge" block (same pred twice via switch) is a merge point as well
        liveness();
        indexLike();
        f.decoded = true;
    }
    void decodeCall(const CallBase* CB, Block& blk) {
        Inst x = base(O_CALL, CB);
        const Function* C = CB->getCalledFunction();
        if (!C) if (auto* ga = dyn_cast<GlobalAlias>(CB->getCalledOperand())) C = dyn_cast<Function>(ga->getAliasee());
        for (auto& a : CB->args()) { x.args.push_back(op(a.get())); x.aw.push_back(bw(a->getType())); }
        if (C) {
            x.callee = funcOf(C);
            Func* cf = funcs[x.callee];
            x.name = cf->name.c_str();
            if (!stubFns.empty() && stubFns.count(cf->name)) {
                const Function* S = M->getFunction("stub_" + cf->name);
                if (S) x.callee = funcOf(S);
            } else if (cf->intr) {
                x.intr = cf->intr; x.op = O_INTR;
                if (x.intr == I_VROR || x.intr == I_VRAND || x.intr == I_VRADD) vecInfo(x, CB->getArgOperand(0)->getType());
                else vecInfo(x, CB->getType());
                if (cf->name.find("ptest") != std::string::npos || x.intr == I_PMOVMSKB) { x.w2 = x.aw[0]; }
            }
        } else {
            if (isa<InlineAsm>(CB->getCalledOperand())) { x.op = O_UNSUP; x.name = "inline asm"; }
            else x.a = op(CB->getCalledOperand());
        }
        blk.ins.push_back(x);
        if (isa<InvokeInst>(CB)) { Inst y; y.op = O_BR; y.llvmInst = CB; blk.ins.push_back(y); }
    }
    void decodeInst(const Instruction* I, Block& blk) {
        if (auto* CB = dyn_cast<CallBase>(I)) {
            auto* II = dyn_cast<IntrinsicInst>(I);
            if (II && II->getIntrinsicID() == Intrinsic::cttz) {
                Inst x = base(O_CTTZ, I); x.a = op(II->getArgOperand(0)); if (I->getType()->isVectorTy()) x.op = O_UNSUP; blk.ins.push_back(x); return;
            }
            decodeCall(CB, blk); return;
        }
        unsigned oc = I->getOpcode();
        if (auto* B = dyn_cast<BinaryOperator>(I)) {
            static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}};
            auto it = m.find(oc);
            Inst x = base(it == m.end() ? O_FP : it->second, I);
            x.a = op(B->getOperand(0)); x.b = op(B->getOperand(1)); vecInfo(x, I->getType());
            if (it == m.end()) { x.pred = oc; x.w2 = x.w; }
            blk.ins.push_back(x); return;
        }
        if (auto* C = dyn_cast<ICmpInst>(I)) {
            Inst x = base(O_ICMP, I); x.pred = C->getPredicate(); x.a = op(C->getOperand(0)); x.b = op(C->getOperand(1)); vecInfo(x, C->getOperand(0)->getType()); x.w2 = bw(C->getOperand(0)->getType()); blk.ins.push_back(x); return;
        }
        if (auto* C = dyn_cast<FCmpInst>(I)) { Inst x = base(O_FP, I); x.pred = oc; x.sub = C->getPredicate(); x.a = op(C->getOperand(0)); x.b = op(C->getOperand(1)); x.w2 = bw(C->getOperand(0)->getType()); x.vec = C->getType()->isVectorTy(); blk.ins.push_back(x); return; }
        if (auto* C = dyn_cast<CastInst>(I)) {
            Op o; unsigned sw = bw(I->getOperand(0)->getType()), dw = bw(I->getType());
            switch (oc) {
            case Instruction::Trunc: o = O_TRUNC; break;
            case Instruction::ZExt: o = O_ZEXT; break;
            case Instruction::SExt: o = O_SEXT; break;
            case Instruction::BitCast: o = O_MOV; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: o = dw == sw ? O_MOV : dw < sw ? O_TRUNC : O_ZEXT; break;
            default: o = O_FP; break;
            }
            Inst x = base(o, I); x.a = op(C->getOperand(0)); x.w2 = sw; vecInfo(x, I->getOperand(0)->getType());
            if (o == O_FP) x.pred = oc;
            blk.ins.push_back(x); return;
        }
        switch (oc) {
        case Instruction::FNeg: { Inst x = base(O_FP, I); x.pred = oc; x.a = op(I->getOperand(0)); x.w2 = x.w; x.vec = I->getType()->isVectorTy(); blk.ins.push_back(x); return; }
        case Instruction::Freeze: { Inst x = base(O_MOV, I); x.a = op(I->getOperand(0)); blk.ins.push_back(x); return; }
        case Instruction::Select: { Inst x = base(O_SELECT, I); x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); x.c = op(I->getOperand(2)); x.vec = I->getOperand(0)->getType()->isVectorTy(); vecInfo2(x, I); blk.ins.push_back(x); return; }
        case Instruction::Load: { Inst x = base(O_LOAD, I); x.a = op(I->getOperand(0)); partsOf(I->getType(), 0, 0, x.parts); x.imm = DL->getTypeStoreSize(I->getType()); blk.ins.push_back(x); return; }
        case Instruction::Store: { Inst x = base(O_STORE, I); Type* t = I->getOperand(0)->getType(); x.a = op(I->getOperand(1)); x.b = op(I->getOperand(0)); x.w = bw(t); partsOf(t, 0, 0, x.parts); x.imm = DL->getTypeStoreSize(t); blk.ins.push_back(x); return; }
        case Instruction::Alloca: { auto* A = cast<AllocaInst>(I); Inst x = base(O_ALLOCA, I); x.imm = DL->getTypeAllocSize(A->getAllocatedType()); x.a = op(A->getArraySize()); blk.ins.push_back(x); return; }
        case Instruction::GetElementPtr: {
            auto* Gp = cast<GetElementPtrInst>(I);
            if (Gp->getType()->isVectorTy()) { Inst x = base(O_UNSUP, I); x.name = "vector gep"; blk.ins.push_back(x); return; }
            Inst x = base(O_GEP, I); x.a = op(Gp->getPointerOperand()); x.imm = 0;
            for (auto it = gep_type_begin(Gp); it != gep_type_end(Gp); ++it) {
                Value* ix = it.getOperand();
                if (StructType* ST = it.getStructTypeOrNull()) x.imm += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                else {
                    int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(ix)) x.imm += ci->getSExtValue() * sz;
                    else { x.args.push_back(op(ix)); x.imms.push_back(sz); x.aw.push_back(bw(ix->getType())); }
                }
            }
            blk.ins.push_back(x); return;
        }
        case Instruction::Br: { auto* br = cast<BranchInst>(I); Inst x = base(br->isConditional() ? O_CBR : O_BR, I); if (br->isConditional()) x.a = op(br->getCondition()); blk.ins.push_back(x); return; }
        case Instruction::Switch: { Inst x = base(O_SWITCH, I); x.a = op(I->getOperand(0)); x.w2 = bw(I->getOperand(0)->getType()); blk.ins.push_back(x); return; }
        case Instruction::Ret: { Inst x = base(O_RET, I); x.imm = I->getNumOperands(); if (x.imm) x.a = op(I->getOperand(0)); blk.ins.push_back(x); return; }
        case Instruction::Unreachable: { Inst x = base(O_UNREACH, I); blk.ins.push_back(x); return; }
        case Instruction::ExtractValue: {
            auto* E = cast<ExtractValueInst>(I); Inst x = base(O_EXTV, I); x.a = op(E->getAggregateOperand()); x.imm = aggOff(E->getAggregateOperand()->getType(), E->getIndices()); blk.ins.push_back(x); return;
        }
        case Instruction::InsertValue: {
            auto* E = cast<InsertValueInst>(I); Inst x = base(O_INSV, I); x.a = op(E->getAggregateOperand()); x.b = op(E->getInsertedValueOperand()); x.w2 = bw(E->getInsertedValueOperand()->getType()); x.imm = aggOff(E->getAggregateOperand()->getType(), E->getIndices()); blk.ins.push_back(x); return;
        }
        case Instruction::ExtractElement: { Inst x = base(O_EXTE, I); x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); vecInfo(x, I->getOperand(0)->getType()); x.w2 = bw(I->getOperand(0)->getType()); blk.ins.push_back(x); return; }
        case Instruction::InsertElement: { Inst x = base(O_INSE, I); x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); x.c = op(I->getOperand(2)); vecInfo(x, I->getType()); blk.ins.push_back(x); return; }
        case Instruction::ShuffleVector: { auto* S = cast<ShuffleVectorInst>(I); Inst x = base(O_SHUF, I); x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); vecInfo(x, I->getType()); x.w2 = bw(I->getOperand(0)->getType()); for (int m : S->getShuffleMask()) x.args.push_back(m); blk.ins.push_back(x); return; }
        case Instruction::LandingPad: { Inst x = base(O_LPAD, I); blk.ins.push_back(x); return; }
        case Instruction::Resume: { Inst x = base(O_RESUME, I); blk.ins.push_back(x); return; }
        case Instruction::Fence: return;
        case Instruction::AtomicRMW: { // single-threaded model
            auto* A = cast<AtomicRMWInst>(I); Type* t = I->getType();
            Inst l = base(O_LOAD, I); l.a = op(A->getPointerOperand()); partsOf(t, 0, 0, l.parts); l.imm = DL->getTypeStoreSize(t); blk.ins.push_back(l);
            Inst b = base(O_ADD, I); b.dst = f.nregs++; f.rw.push_back(bw(t)); b.a = regOf(I); b.b = op(A->getValOperand()); b.ew = bw(t);
            if (A->getOperation() == AtomicRMWInst::Sub) b.op = O_SUB; else if (A->getOperation() == AtomicRMWInst::Xchg) { b.op = O_MOV; b.a = b.b; } else if (A->getOperation() != AtomicRMWInst::Add) b.op = O_UNSUP;
            blk.ins.push_back(b);
            Inst s = base(O_STORE, nullptr); s.llvmInst = I; s.a = op(A->getPointerOperand()); s.b = b.dst; s.w = bw(t); partsOf(t, 0, 0, s.parts); s.imm = DL->getTypeStoreSize(t); blk.ins.push_back(s); return;
        }
        default: { Inst x = base(O_UNSUP, I); x.name = I->getOpcodeName(); blk.ins.push_back(x); return; }
        }
    }
    void vecInfo2(Inst& x, const Instruction* I) { if (auto* v = dyn_cast<FixedVectorType>(I->getType())) x.ew = bw(v->getElementType()); }
    int64_t aggOff(Type* t, ArrayRef<unsigned> ix) {
        int64_t o = 0;
        for (unsigned i : ix) {
            if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += bw(s->getElementType(k)); t = s->getElementType(i); }
            else { auto* a = cast<ArrayType>(t); o += i * bw(a->getElementType()); t = a->getElementType(); }
        }
        return o;
    }
    template <class Fn> static void uses(const Inst& x, Fn fn) {
        switch (x.op) {
        case O_FALL: case O_BR: case O_UNREACH: case O_UNSUP: case O_TRAP: return;
        case O_RET: if (x.imm) fn(x.a); return;
        case O_CALL: if (x.callee < 0) fn(x.a); for (int a : x.args) fn(a); return;
        case O_INTR: for (int a : x.args) fn(a); return;
        case O_CBR: case O_GEP: fn(x.a); for (int a : x.args) fn(a); return;
        case O_SHUF: fn(x.a); fn(x.b); return;
        case O_ALLOCA: case O_LOAD: case O_SWITCH: case O_EXTV: case O_TRUNC: case O_ZEXT: case O_SEXT: case O_MOV: case O_CTTZ: fn(x.a); return;
        case O_SELECT: case O_INSE: fn(x.a); fn(x.b); fn(x.c); return;
        case O_FP: fn(x.a); fn(x.b); return;
        default: fn(x.a); fn(x.b); return;
        }
    }
    template <class Fn> static void succs(const Inst& x, Fn fn) { // (target, edge)
        if (x.op == O_FALL) fn(x.t0, -1);
        else if (x.op == O_BR) fn(x.t0, x.e0);
        else if (x.op == O_CBR) { fn(x.t0, x.e0); fn(x.t1, x.e1); }
        else if (x.op == O_SWITCH) { fn(x.t0, x.e0); for (size_t i = 0; i < x.targets.size(); i++) fn(x.targets[i], x.edges[i]); }
    }
    void liveOut(const Block& b, std::vector<uint64_t>& out) {
        std::fill(out.begin(), out.end(), 0);
        succs(b.ins.back(), [&](int t, int e) {
            if (t < 0) return;
            std::vector<uint64_t> l = f.blocks[t].live;
            if (e >= 0) {
                for (auto& m : f.edges[e]) l[m.dst / 64] &= ~(1ULL << (m.dst % 64));
                for (auto& m : f.edges[e]) if (m.src >= 0 && (f.blocks[t].live[m.dst / 64] >> (m.dst % 64) & 1)) l[m.src / 64] |= 1ULL << (m.src % 64);
            }
            for (size_t i = 0; i < out.size(); i++) out[i] |= l[i];
        });
    }
    void liveness() {
        size_t nw = (f.nregs + 63) / 64 + 1;
        for (auto& b : f.blocks) b.live.assign(nw, 0);
        bool ch = true; std::vector<uint64_t> out(nw);
        while (ch) {
            ch = false;
            for (size_t bi = f.blocks.size(); bi-- > 0;) {
                Block& b = f.blocks[bi];
                liveOut(b, out);
                for (size_t i = b.ins.size(); i-- > 0;) {
                    const Inst& x = b.ins[i];
                    if (x.dst >= 0) out[x.dst / 64] &= ~(1ULL << (x.dst % 64));
                    uses(x, [&](int r) { if (r >= 0) out[r / 64] |= 1ULL << (r % 64); });
                }
                if (out != b.live) { b.live = out; ch = true; }
            }
        }
        for (auto& b : f.blocks) {
            for (int r = 0; r < f.nregs; r++) if (b.live[r / 64] >> (r % 64) & 1) b.liveList.push_back(r);
            // call sites
            bool any = false; for (auto& x : b.ins) if (x.op == O_CALL || x.op == O_INTR) any = true;
            if (any) {
                liveOut(b, out);
                for (size_t i = b.ins.size(); i-- > 0;) {
                    const Inst& x = b.ins[i];
                    if (x.dst >= 0) out[x.dst / 64] &= ~(1ULL << (x.dst % 64));
                    if (x.op == O_CALL || x.op == O_INTR) { std::vector<int> l; for (int r = 0; r < f.nregs; r++) if (out[r / 64] >> (r % 64) & 1) l.push_back(r); b.liveAt[i] = l; }
                    uses(x, [&](int r) { if (r >= 0) out[r / 64] |= 1ULL << (r % 64); });
                }
            }
        }
    }
    void indexLike();
};
static std::set<int> idxBusy;
static void ensureDecoded(Func* f) {
    if (f->decoded) return;
    const Function* F = (const Function*)f->F;
    if (F->isDeclaration()) die("decode of declaration " + f->name);
    Decoder d(*F, *f);
    d.run();
}
void Decoder::indexLike() {
    f.idx.assign(f.nregs, 0);
    std::vector<int> wl;
    auto markr = [&](int r) { if (r >= 0 && !f.idx[r] && f.rw[r] >= 3 && f.rw[r] <= 64) { f.idx[r] = 1; wl.push_back(r); } };
    std::vector<const Inst*> def(f.nregs, nullptr);
    std::unordered_map<int, std::vector<int>> phiSrc;
    for (auto& e : f.edges) for (auto& m : e) phiSrc[m.dst].push_back(m.src);
    idxBusy.insert(f.id);
    for (auto& b : f.blocks) for (auto& x : b.ins) {
        if (x.dst >= 0) def[x.dst] = &x;
        switch (x.op) {
        case O_GEP: markr(x.a); for (int a : x.args) markr(a); break;
        case O_LOAD: case O_STORE: markr(x.a); break;
        case O_SHL: case O_LSHR: case O_ASHR: if (!x.vec) markr(x.b); break;
        case O_SWITCH: markr(x.a); break;
        case O_ALLOCA: markr(x.a); break;
        case O_RET: if (x.imm && x.a >= 0) { unsigned w = f.rw[x.a]; if (w == 32 || w == 64) { const Function& FF = F; if (FF.getReturnType()->isPointerTy() || w == 32) markr(x.a); } } break;
        case O_CALL:
            for (size_t i = 0; i < x.args.size(); i++) {
                if (x.args[i] < 0) continue;
                bool m = true;
                if (x.callee >= 0 && !idxBusy.count(x.callee) && !funcs[x.callee]->decl) {
                    Func* cf = funcs[x.callee]; ensureDecoded(cf);
                    m = (int)i < cf->nargs ? cf->idx[i] : true;
                } else if (f.rw[x.args[i]] == 64 && x.callee >= 0 && (int)i < 100) {
                    const Function* CF = (const Function*)funcs[x.callee]->F;
                    m = i < CF->arg_size() && CF->getArg(i)->getType()->isPointerTy();
                }
                if (m) markr(x.args[i]);
            }
            break;
        case O_INTR:
            if (x.intr == I_MEMCPY || x.intr == I_MEMMOVE || x.intr == I_MEMSET) { markr(x.args[0]); if (x.intr != I_MEMSET) markr(x.args[1]); markr(x.args[2]); }
            else if (x.intr == I_MALLOC || x.intr == I_FREE || x.intr == I_STRLEN || x.intr == I_MEMCMP) for (int a : x.args) markr(a);
            break;
        default: break;
        }
    }
    idxBusy.erase(f.id);
    while (!wl.empty()) {
        int r = wl.back(); wl.pop_back();
        auto it = phiSrc.find(r);
        if (it != phiSrc.end()) for (int s : it->second) markr(s);
        const Inst* x = def[r];
        if (!x) continue;
        switch (x->op) {
        case O_ADD: case O_SUB: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: if (!x->vec) { markr(x->a); markr(x->b); } break;
        case O_SHL: case O_LSHR: case O_ASHR: case O_TRUNC: case O_ZEXT: case O_SEXT: case O_MOV: if (!x->vec) markr(x->a); break;
        case O_GEP: break;
        case O_SELECT: markr(x->b); markr(x->c); break;
        case O_INTR: if (x->intr == I_UMIN || x->intr == I_UMAX || x->intr == I_SMIN || x->intr == I_SMAX) { markr(x->args[0]); markr(x->args[1]); } break;
        default: break;
        }
    }
}
