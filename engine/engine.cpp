#include <unordered_set>
// A merging, bit-precise symbolic executor for LLVM IR.
//
// The program (the repository's real C++ lowered by clang) is executed with registers and memory holding
// AIG literals.  Control-flow forks on symbolic branches and re-merges at joins; find-first-set on a symbolic
// word forks on the position of the lowest set bit so that loops over bitboards keep concrete square indices.
// sym_assert obligations are decided by a SAT solver; models are returned as concrete inputs.
#include "circ.h"
#include "sat.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <signal.h>
#include <sys/resource.h>
#include <functional>
using namespace llvm;

Aig G;
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::vector<Func*> funcs;
static std::unordered_map<const Function*, int> fIndex;
static std::unordered_map<const GlobalValue*, uint32_t> gObj;
static std::unordered_map<std::string, long> params;
static Sat* sat;
static double deadline = 1e18, tStart;
static bool verbose = false;

// ------------------------------------------------------------------ results
struct Input { std::string name; unsigned bits; Val v; };
static std::vector<Input> inputs;
static std::map<std::pair<std::string, unsigned>, Val> symCache;
struct Oblig { std::string label; uint64_t tag; Lit viol; size_t nassume; };
static std::vector<Oblig> obligs;
static std::vector<Oblig> reaches;
static std::vector<Oblig> errorsAt; // unsupported / memory errors under a path condition
static std::vector<Lit> assumptions;
static uint64_t nTrivial = 0, nForks = 0, nMerges = 0, nInst = 0, nStates = 0, nCtForks = 0;
static std::set<std::string> throwLabels;
static bool initPhase = true;
static bool memPartition = false;
static bool noMerge = false;
static int forkIdx = 0;
static bool checkMem = true;

[[noreturn]] static void die(const std::string& s) { fprintf(stderr, "ENGINE-ERROR: %s\n", s.c_str()); fflush(stderr); throw std::runtime_error(s); }

// ------------------------------------------------------------------ types
static unsigned bw(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isVoidTy()) return 0;
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * bw(v->getElementType());
    if (auto* s = dyn_cast<StructType>(t)) { unsigned r = 0; for (Type* e : s->elements()) r += bw(e); return r; }
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * bw(a->getElementType());
    return 0;
}
static void partsOf(Type* t, uint32_t bitoff, uint32_t byteoff, std::vector<MemPart>& out) {
    if (auto* s = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(s);
        uint32_t b = bitoff;
        for (unsigned i = 0; i < s->getNumElements(); i++) { partsOf(s->getElementType(i), b, byteoff + sl->getElementOffset(i), out); b += bw(s->getElementType(i)); }
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType()); unsigned eb = bw(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements(); i++) partsOf(a->getElementType(), bitoff + i * eb, byteoff + i * es, out);
    } else out.push_back({bitoff, byteoff, bw(t)});
}

// ------------------------------------------------------------------ constants
static int funcOf(const Function* F);
static State* ST0; // initial memory holder
static Val constVal(const Constant* C);
static uint64_t constAddr(const Constant* C) {
    Val v = constVal(C);
    if (v.sym()) die("non-const address constant");
    return v.c;
}
static Val constVal(const Constant* C) {
    unsigned w = bw(C->getType());
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
        const APInt& a = ci->getValue();
        if (w <= 64) return Val(a.getZExtValue());
        LV l(w); for (unsigned i = 0; i < w; i++) l[i] = a[i]; return mk(l.data(), w);
    }
    if (isa<ConstantPointerNull>(C)) return Val((uint64_t)0);
    if (auto* gv = dyn_cast<GlobalValue>(C)) {
        if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
        auto it = gObj.find(gv);
        if (it == gObj.end()) die("global without object: " + gv->getName().str());
        return Val(addrOf(it->second));
    }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        if (w <= 64) return Val(a.getZExtValue());
        LV l(w); for (unsigned i = 0; i < w; i++) l[i] = a[i]; return mk(l.data(), w);
    }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
        if (w <= 64) return Val((uint64_t)0);
        LV l(w, LF); return mk(l.data(), w);
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
        LV l; for (unsigned i = 0; i < cd->getNumElements(); i++) { Val v = constVal(cd->getElementAsConstant(i)); unsigned ew = bw(cd->getElementType()); for (unsigned k = 0; k < ew; k++) l.push_back(v.bit(k)); }
        return mk(l.data(), l.size());
    }
    if (isa<ConstantVector>(C) || isa<ConstantStruct>(C) || isa<ConstantArray>(C)) {
        LV l; for (unsigned i = 0; i < C->getNumOperands(); i++) { auto* e = cast<Constant>(C->getOperand(i)); Val v = constVal(e); unsigned ew = bw(e->getType()); for (unsigned k = 0; k < ew; k++) l.push_back(v.bit(k)); }
        return mk(l.data(), l.size());
    }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* gep = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) die("const gep");
            return Val(constAddr(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Val v = constVal(cast<Constant>(ce->getOperand(0)));
            if (w < 64 && !v.sym()) v.c &= maskw(w);
            return v;
        }
        case Instruction::Sub: return Val((constVal(cast<Constant>(ce->getOperand(0))).c - constVal(cast<Constant>(ce->getOperand(1))).c) & maskw(w));
        case Instruction::Add: return Val((constVal(cast<Constant>(ce->getOperand(0))).c + constVal(cast<Constant>(ce->getOperand(1))).c) & maskw(w));
        case Instruction::Trunc: return Val(constVal(cast<Constant>(ce->getOperand(0))).c & maskw(w));
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); C->print(os); die("constant: " + s);
}

// ------------------------------------------------------------------ memory
static CPage* zeroPage; static CPage* junkPage;
static Obj* mkObj(uint32_t size, bool zero, const char* name = nullptr) {
    Obj* o = new Obj(size); o->name = name;
    size_t np = (size + PG - 1) / PG;
    CPage* p = zero ? zeroPage : junkPage;
    o->pages.assign(np, p); p->rc += np;
    return o;
}
static uint32_t newObj(State& s, uint32_t size, bool zero, const char* name = nullptr) {
    Obj* o = mkObj(size, zero, name);
    s.mem.push_back(o);
    return s.mem.size() - 1;
}
static void freeObj(State& s, uint32_t id) {
    objRel(s.mem[id]); s.mem[id] = nullptr;
    while (!s.mem.empty() && !s.mem.back()) s.mem.pop_back();
}
static inline Obj* wobj(State& s, uint32_t id) {
    Obj* o = s.mem[id];
    if (o->rc > 1) { Obj* n = new Obj(*o); o->rc--; s.mem[id] = n; o = n; }
    return o;
}
static inline CPage* wconc(Obj* o, size_t pi) { // writable concrete page (must be concrete)
    Page* p = o->pages[pi];
    if (p->rc > 1) { CPage* n = new CPage(*(CPage*)p); n->rc = 1; p->rc--; o->pages[pi] = n; return n; }
    return (CPage*)p;
}
static SPage* wsym(Obj* o, size_t pi) {
    Page* p = o->pages[pi];
    if (p->conc) {
        SPage* n = new SPage; n->rc = 1; n->conc = false;
        CPage* c = (CPage*)p;
        for (unsigned i = 0; i < PG; i++) for (unsigned k = 0; k < 8; k++) n->l[i * 8 + k] = (c->b[i] >> k) & 1;
        o->pages[pi] = n; pgRel(p); return n;
    }
    if (p->rc > 1) { SPage* n = new SPage(*(SPage*)p); n->rc = 1; p->rc--; o->pages[pi] = n; return n; }
    return (SPage*)p;
}
static struct { std::vector<int8_t> v; bool any = false; void set(uint32_t i, bool b) { if (v.size() <= i) v.resize(std::max<size_t>(i + 1, v.size() * 2), -1); v[i] = b; any = true; } void clear() { v.clear(); any = false; } bool empty() const { return !any; } int get(uint32_t i) const { return i < v.size() ? v[i] : -1; } } gKnown; // facts implied by the assumptions (node -> value)
static void assumeLit(Lit c) {
    std::vector<Lit> wl{c};
    while (!wl.empty()) {
        Lit x = wl.back(); wl.pop_back();
        if (isC(x)) continue;
        if (!(x & 1) && G.isAndNode(x >> 1) && G.gof(x >> 1) < 0) { wl.push_back(G.n[x >> 1].a); wl.push_back(G.n[x >> 1].b); }
        G.narrow(x); gKnown.set(x >> 1, !(x & 1));
    }
}
static inline int known(const State& s, Lit l) { // 1 true 0 false -1 unknown
    if (isC(l)) return l;
    if (gKnown.any) { int k = gKnown.get(l >> 1); if (k >= 0) return k ^ (int)(l & 1); }
    if (!s.gc.empty()) { int x = G.gof(l >> 1); if (x >= 0) { const Aig::GN& g = G.gn[x]; for (auto& e : s.gc) if (e.first == g.g) { bool z = true, o = true; for (int i = 0; i < 4; i++) { uint64_t t = (l & 1) ? ~g.t.w[i] : g.t.w[i]; if (t & e.second.w[i]) z = false; if (~t & e.second.w[i]) o = false; } if (z) return 0; if (o) return 1; break; } } }
    if (s.pc.empty()) return -1;
    auto it = std::lower_bound(s.pc.begin(), s.pc.end(), l & ~1u);
    if (it == s.pc.end()) return -1;
    if ((*it >> 1) != (l >> 1)) return -1;
    return *it == l ? 1 : 0;
}
// known(), looking through the conjunctions a literal is built from (bounded effort)
static int dkBudget = getenv("SYMX_DK") ? atoi(getenv("SYMX_DK")) : 100;
struct DK {
    std::vector<uint32_t> stamp; std::vector<int8_t> val; uint32_t cur = 0; int budget = 0;
    int go(const State& s, Lit l, int d) {
        if (isC(l)) return l;
        uint32_t id = l >> 1;
        int r;
        if (stamp[id] == cur) r = val[id];
        else {
            int k = known(s, l & ~1u); if (k >= 0) { stamp[id] = cur; val[id] = k; return k ^ (int)(l & 1); }
            if (!G.isAndNode(id) || d > 60) { stamp[id] = cur; val[id] = -1; return -1; }
            if (--budget < 0) return -1;
            int p = go(s, G.n[id].a, d + 1);
            if (p == 0) r = 0; else { int q = go(s, G.n[id].b, d + 1); r = q == 0 ? 0 : (p == 1 && q == 1) ? 1 : -1; }
            stamp[id] = cur; val[id] = r;
        }
        return r < 0 ? -1 : r ^ (int)(l & 1);
    }
} static dk;
static int deepKnown(const State& s, Lit l0) {
    int k0 = known(s, l0); if (k0 >= 0 || s.pc.empty()) return k0;
    if (dk.stamp.size() < G.n.size()) { dk.stamp.resize(G.n.size() * 2); dk.val.resize(G.n.size() * 2); }
    dk.cur++; dk.budget = dkBudget;
    return dk.go(s, l0, 0);
}
static Val loadBits(const State& s, const Obj* o, int64_t off, unsigned bits) {
    unsigned bytes = (bits + 7) / 8;
    if (bits <= 64) {
        size_t p0 = off / PG, p1 = (off + bytes - 1) / PG;
        if (o->pages[p0]->conc && o->pages[p1]->conc) {
            uint64_t c = 0;
            for (unsigned i = 0; i < bytes; i++) c |= (uint64_t)((CPage*)o->pages[(off + i) / PG])->b[(off + i) % PG] << (8 * i);
            return Val(c & maskw(bits));
        }
    }
    Lit buf[4096];
    if (bits > 4096) die("load too wide");
    for (unsigned i = 0; i < bytes; i++) {
        Page* p = o->pages[(off + i) / PG]; unsigned q = (off + i) % PG;
        if (p->conc) { uint8_t b = ((CPage*)p)->b[q]; for (unsigned k = 0; k < 8 && i * 8 + k < bits; k++) buf[i * 8 + k] = (b >> k) & 1; }
        else for (unsigned k = 0; k < 8 && i * 8 + k < bits; k++) {
            Lit l = ((SPage*)p)->l[q * 8 + k];
            if (l > 1) { int kn = known(s, l); if (kn >= 0) l = kn; }
            buf[i * 8 + k] = l;
        }
    }
    return mk(buf, bits);
}
static void storeBits(State& s, uint32_t id, int64_t off, unsigned bits, const Val& v) {
    Obj* o = wobj(s, id);
    unsigned bytes = (bits + 7) / 8;
    if (!v.sym() && bits <= 64) {
        for (unsigned i = 0; i < bytes; i++) {
            size_t pi = (off + i) / PG; unsigned q = (off + i) % PG; uint8_t b = v.c >> (8 * i);
            if (o->pages[pi]->conc) { if (((CPage*)o->pages[pi])->b[q] != b) wconc(o, pi)->b[q] = b; }
            else { SPage* sp = wsym(o, pi); for (unsigned k = 0; k < 8; k++) sp->l[q * 8 + k] = (b >> k) & 1; }
        }
        return;
    }
    for (unsigned i = 0; i < bytes; i++) {
        size_t pi = (off + i) / PG; unsigned q = (off + i) % PG;
        bool allc = true; uint8_t b = 0; Lit l[8];
        for (unsigned k = 0; k < 8; k++) { l[k] = i * 8 + k < bits ? v.bit(i * 8 + k) : LF; if (l[k] > 1) allc = false; else b |= l[k] << k; }
        if (allc && o->pages[pi]->conc) { if (((CPage*)o->pages[pi])->b[q] != b) wconc(o, pi)->b[q] = b; }
        else { SPage* sp = wsym(o, pi); memcpy(sp->l + q * 8, l, sizeof l); }
    }
}

// ------------------------------------------------------------------ decoding
#include "decode.inc"
#include "exec.inc"
