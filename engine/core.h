// Core data structures of the merging symbolic executor.
#pragma once
#include "aig.h"
#include <map>
#include <unordered_map>
#include <set>
#include <memory>
#include <string>

struct BV { int rc; uint32_t n; Lit l[1]; };
static inline BV* newBV(uint32_t n) {
    BV* b = (BV*)malloc(sizeof(BV) + sizeof(Lit) * n);
    b->rc = 1; b->n = n; return b;
}
// A value: constant (width <= 64, s == null) or a vector of literals.
struct Val {
    BV* s; uint64_t c;
    Val() : s(nullptr), c(0) {}
    explicit Val(uint64_t v) : s(nullptr), c(v) {}
    explicit Val(BV* b) : s(b), c(0) {}
    Val(const Val& o) : s(o.s), c(o.c) { if (s) s->rc++; }
    Val(Val&& o) noexcept : s(o.s), c(o.c) { o.s = nullptr; }
    Val& operator=(const Val& o) { if (o.s) o.s->rc++; rel(); s = o.s; c = o.c; return *this; }
    Val& operator=(Val&& o) noexcept { if (this != &o) { rel(); s = o.s; c = o.c; o.s = nullptr; } return *this; }
    ~Val() { rel(); }
    inline void rel() { if (s && --s->rc == 0) free(s); s = nullptr; }
    inline Lit bit(unsigned i) const { return s ? s->l[i] : (Lit)((c >> i) & 1); }
    inline bool sym() const { return s != nullptr; }
};
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
// Build a Val from literals, normalising to a constant when possible.
static inline Val mk(const Lit* l, unsigned n) {
    if (n <= 64) {
        uint64_t c = 0; unsigned i = 0;
        for (; i < n; i++) { if (l[i] > 1) break; c |= (uint64_t)l[i] << i; }
        if (i == n) return Val(c);
    }
    BV* b = newBV(n);
    memcpy(b->l, l, n * sizeof(Lit));
    return Val(b);
}
static inline void toL(const Val& v, unsigned w, Lit* out) {
    if (v.s) { unsigned m = v.s->n < w ? v.s->n : w; memcpy(out, v.s->l, m * sizeof(Lit)); for (unsigned i = m; i < w; i++) out[i] = LF; }
    else for (unsigned i = 0; i < w; i++) out[i] = i < 64 ? (Lit)((v.c >> i) & 1) : LF;
}

// ---------------------------------------------------------------- memory
static const unsigned PG = 64; // bytes per page
struct Page { int rc; bool conc; };
struct CPage : Page { uint8_t b[PG]; };
struct SPage : Page { Lit l[PG * 8]; };
static inline void pgRel(Page* p) { if (--p->rc == 0) { if (p->conc) delete (CPage*)p; else delete (SPage*)p; } }

struct VNode { VNode* prev; uint32_t len; Lit present; Val data; bool hole = false; VNode(VNode* p, uint32_t l, Lit pr, const Val& d, bool h = false) : prev(p), len(l), present(pr), data(d), hole(h) {} };

struct Obj {
    int rc; uint32_t size; uint8_t kind; // 0 data, 1 function, 2 vlist
    uint32_t elem; VNode* vl; int fn;
    const char* name;
    std::vector<Page*> pages;
    Obj(uint32_t sz) : rc(1), size(sz), kind(0), elem(0), vl(nullptr), fn(-1), name(nullptr) {}
    Obj(const Obj& o) : rc(1), size(o.size), kind(o.kind), elem(o.elem), vl(o.vl), fn(o.fn), name(o.name), pages(o.pages) { for (Page* p : pages) p->rc++; }
    ~Obj() { for (Page* p : pages) pgRel(p); }
};
static inline void objRel(Obj* o) { if (o && --o->rc == 0) delete o; }

static const uint64_t OFFBASE = 0x10000000ULL;
static inline uint64_t addrOf(uint32_t id, uint64_t off = 0) { return ((uint64_t)(id + 1) << 32) + OFFBASE + off; }
static inline int64_t idOf(uint64_t a) { return (int64_t)(a >> 32) - 1; }
static inline int64_t offOf(uint64_t a) { return (int64_t)(a & 0xffffffffULL) - (int64_t)OFFBASE; }

// ---------------------------------------------------------------- code
enum Op : uint8_t {
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_ICMP, O_SELECT, O_TRUNC, O_ZEXT, O_SEXT, O_MOV, O_LOAD, O_STORE, O_ALLOCA, O_GEP, O_BR, O_CBR,
    O_SWITCH, O_CALL, O_RET, O_UNREACH, O_LPAD, O_RESUME, O_EXTV, O_INSV, O_EXTE, O_INSE, O_SHUF, O_FALL, O_INTR, O_FP, O_UNSUP,
    O_CTTZ, O_TRAP
};
struct MemPart { uint32_t bitoff, byteoff, bits; };
struct Inst {
    Op op; uint8_t pred = 0; uint8_t sub = 0; bool vec = false;
    uint32_t w = 0, ew = 0, w2 = 0; // w: result/flat width, ew: element width, w2: source width
    int dst = -1, a = 0, b = 0, c = 0;
    int t0 = -1, t1 = -1;          // successor blocks
    int e0 = -1, e1 = -1;          // edge move lists
    int64_t imm = 0;
    std::vector<int> args;          // call args / gep indices / shuffle mask
    std::vector<int64_t> imms;      // gep scales / switch values
    std::vector<int> targets, edges;
    std::vector<uint32_t> aw;       // widths of args
    std::vector<MemPart> parts;
    int callee = -1;                // function index, -1 indirect
    int intr = 0;
    const char* name = nullptr;     // external name / diagnostics
    const void* llvmInst = nullptr;
};
struct Move2 { int dst, src; };
struct Block {
    std::vector<Inst> ins;
    int order = 0, park = -1, bb = 0;
    bool merge = false, cttz = false;
    int adaptive = 0;               // cttz parking disabled when > 0
    std::vector<uint64_t> live;
    std::vector<int> liveList;
    std::map<int, std::vector<int>> liveAt; // live lists at call sites (by ip)
};
struct Func {
    std::string name; const void* F = nullptr; bool decoded = false; bool decl = false;
    int nregs = 0; int nargs = 0; std::vector<Val> consts;
    std::vector<Block> blocks; std::vector<std::vector<Move2>> edges;
    std::vector<uint32_t> rw;       // register widths
    std::vector<uint8_t> idx;       // index-like registers
    int intr = -1; uint64_t execCount = 0;
    int id = 0;
};

struct FrameData { int rc; std::vector<Val> regs; };
struct Frame {
    Func* f = nullptr; int block = 0, ip = 0; int retReg = -1; uint32_t objMark = 0;
    FrameData* d = nullptr;
    std::vector<uint32_t> allocas;
    Frame() {}
    Frame(const Frame& o) : f(o.f), block(o.block), ip(o.ip), retReg(o.retReg), objMark(o.objMark), d(o.d), allocas(o.allocas) { if (d) d->rc++; }
    Frame& operator=(const Frame& o) { if (o.d) o.d->rc++; rel(); f = o.f; block = o.block; ip = o.ip; retReg = o.retReg; objMark = o.objMark; d = o.d; allocas = o.allocas; return *this; }
    Frame(Frame&& o) noexcept : f(o.f), block(o.block), ip(o.ip), retReg(o.retReg), objMark(o.objMark), d(o.d), allocas(std::move(o.allocas)) { o.d = nullptr; }
    Frame& operator=(Frame&& o) noexcept { if (this != &o) { rel(); f = o.f; block = o.block; ip = o.ip; retReg = o.retReg; objMark = o.objMark; d = o.d; allocas = std::move(o.allocas); o.d = nullptr; } return *this; }
    ~Frame() { rel(); }
    void rel() { if (d && --d->rc == 0) delete d; d = nullptr; }
    void own() { if (d->rc > 1) { FrameData* n = new FrameData{1, d->regs}; d->rc--; d = n; } }
};
struct State {
    std::vector<Frame> fr;
    std::vector<Obj*> mem;
    std::vector<Lit> pc; // sorted set of literals known on this path
    std::vector<Lit> sp; // branch conditions in order; their conjunction is the path condition
    std::vector<std::pair<int, Aig::TT>> gc; // values still possible on this path, per input group
    uint32_t id = 0; bool parked = false;
    int allowThrow = 0; uint64_t excPtr = 0; int excSel = 0, excType = 0; // exception in flight
    State() {}
    State(const State& o) : fr(o.fr), mem(o.mem), pc(o.pc), sp(o.sp), gc(o.gc), allowThrow(o.allowThrow), excPtr(o.excPtr), excSel(o.excSel), excType(o.excType) { for (Obj* x : mem) if (x) x->rc++; }
    ~State() { for (Obj* x : mem) objRel(x); }
};
