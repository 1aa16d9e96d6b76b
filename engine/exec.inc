// ------------------------------------------------------------------ evaluation helpers
static Val evalBin(Op op, unsigned w, bool vec, unsigned ew, const Val& A, const Val& B) {
    if (!A.sym() && !B.sym() && w <= 64 && !vec) {
        uint64_t a = A.c, b = B.c, m = maskw(w);
        auto sx = [&](uint64_t v) { return (int64_t)(v << (64 - w)) >> (64 - w); };
        switch (op) {
        case O_ADD: return Val((a + b) & m); case O_SUB: return Val((a - b) & m); case O_MUL: return Val((a * b) & m);
        case O_UDIV: return Val(b ? a / b : 0); case O_UREM: return Val(b ? a % b : 0);
        case O_SDIV: return Val(b ? (uint64_t)(sx(b) == -1 ? -sx(a) : sx(a) / sx(b)) & m : 0);
        case O_SREM: return Val(b ? (uint64_t)(sx(b) == -1 ? 0 : sx(a) % sx(b)) & m : 0);
        case O_SHL: return Val(b >= w ? 0 : (a << b) & m); case O_LSHR: return Val(b >= w ? 0 : a >> b);
        case O_ASHR: return Val((uint64_t)(sx(a) >> (b >= w ? w - 1 : b)) & m);
        case O_AND: return Val(a & b); case O_OR: return Val(a | b); case O_XOR: return Val(a ^ b);
        default: die("bin");
        }
    }
    Lit a[2048], b[2048], o[2048];
    if (w > 2048) die("too wide");
    toL(A, w, a); toL(B, w, b);
    if (op == O_AND) { for (unsigned i = 0; i < w; i++) o[i] = G.AND(a[i], b[i]); return mk(o, w); }
    if (op == O_OR) { for (unsigned i = 0; i < w; i++) o[i] = G.OR(a[i], b[i]); return mk(o, w); }
    if (op == O_XOR) { for (unsigned i = 0; i < w; i++) o[i] = G.XOR(a[i], b[i]); return mk(o, w); }
    if (!vec) ew = w;
    for (unsigned k = 0; k < w; k += ew) {
        Lit *x = a + k, *y = b + k, *z = o + k;
        switch (op) {
        case O_ADD: cAdd(x, y, LF, ew, z); break;
        case O_SUB: cSub(x, y, ew, z); break;
        case O_MUL: cMul(x, y, ew, z); break;
        case O_UDIV: cDivU(x, y, ew, z, nullptr); break;
        case O_UREM: cDivU(x, y, ew, nullptr, z); break;
        case O_SDIV: cDivS(x, y, ew, z, nullptr); break;
        case O_SREM: cDivS(x, y, ew, nullptr, z); break;
        case O_SHL: cShift(0, x, y, ew, z); break;
        case O_LSHR: cShift(1, x, y, ew, z); break;
        case O_ASHR: cShift(2, x, y, ew, z); break;
        default: die("bin");
        }
    }
    return mk(o, w);
}
static Lit cmpL(int pred, const Lit* a, const Lit* b, unsigned n) {
    switch (pred) {
    case CmpInst::ICMP_EQ: return cEq(a, b, n);
    case CmpInst::ICMP_NE: return NOT(cEq(a, b, n));
    case CmpInst::ICMP_ULT: return cUlt(a, b, n);
    case CmpInst::ICMP_UGE: return NOT(cUlt(a, b, n));
    case CmpInst::ICMP_UGT: return cUlt(b, a, n);
    case CmpInst::ICMP_ULE: return NOT(cUlt(b, a, n));
    case CmpInst::ICMP_SLT: return cSlt(a, b, n);
    case CmpInst::ICMP_SGE: return NOT(cSlt(a, b, n));
    case CmpInst::ICMP_SGT: return cSlt(b, a, n);
    case CmpInst::ICMP_SLE: return NOT(cSlt(b, a, n));
    }
    die("pred");
}
static Val evalCmp(int pred, unsigned w, bool vec, unsigned ew, const Val& A, const Val& B) {
    if (!A.sym() && !B.sym() && w <= 64 && !vec) {
        uint64_t a = A.c, b = B.c;
        auto sx = [&](uint64_t v) { return (int64_t)(v << (64 - w)) >> (64 - w); };
        bool r = false;
        switch (pred) {
        case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break;
        case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGE: r = a >= b; break; case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_ULE: r = a <= b; break;
        case CmpInst::ICMP_SLT: r = sx(a) < sx(b); break; case CmpInst::ICMP_SGE: r = sx(a) >= sx(b); break; case CmpInst::ICMP_SGT: r = sx(a) > sx(b); break; case CmpInst::ICMP_SLE: r = sx(a) <= sx(b); break;
        }
        return Val((uint64_t)r);
    }
    Lit a[2048], b[2048], o[512];
    toL(A, w, a); toL(B, w, b);
    if (!vec) ew = w;
    unsigned n = 0;
    for (unsigned k = 0; k < w; k += ew) o[n++] = cmpL(pred, a + k, b + k, ew);
    return mk(o, n);
}

// ------------------------------------------------------------------ path conditions
static std::vector<uint32_t> markE; static uint32_t epoch = 0;
static bool addLeaf(State& s, Lit x, std::vector<Lit>& added, std::vector<Lit>& wl) {
    auto it = std::lower_bound(s.pc.begin(), s.pc.end(), x & ~1u);
    if (it != s.pc.end() && (*it >> 1) == (x >> 1)) return *it == x;
    s.pc.insert(it, x); added.push_back(x);
    // one-level propagation into disjunctive conjuncts
    for (size_t i = 0; i < s.pc.size();) {
        Lit y = s.pc[i];
        if (y != x && (y & 1) && G.isAndNode(y >> 1)) {
            Lit p = G.n[y >> 1].a, q = G.n[y >> 1].b; // y = !(p & q)
            if (p == x || q == x) wl.push_back(NOT(p == x ? q : p));
        }
        i++;
    }
    return true;
}
// Adds literal c to the path condition.  Returns false when the path becomes infeasible.
static bool addGroup(State& s, Lit x) {
    int gx = G.gof(x >> 1); if (gx < 0) return true;
    const Aig::GN& g = G.gn[gx]; size_t i = 0; while (i < s.gc.size() && s.gc[i].first < g.g) i++;
    if (i == s.gc.size() || s.gc[i].first != g.g) s.gc.insert(s.gc.begin() + i, {g.g, G.groups[g.g].care});
    bool z = true; for (int k = 0; k < 4; k++) { s.gc[i].second.w[k] &= (x & 1) ? ~g.t.w[k] : g.t.w[k]; if (s.gc[i].second.w[k]) z = false; }
    return !z;
}
static bool addCond(State& s, Lit c, bool refine = true, bool force = false) {
    std::vector<Lit> wl{c}, added;
    if (c == LF) return false;
    if (c == LT) return true;
    if (known(s, c) == 1) { if (force) s.sp.push_back(c); return true; }
    s.sp.push_back(c);
    while (!wl.empty()) {
        Lit x = wl.back(); wl.pop_back();
        if (x == LT) continue;
        if (x == LF) return false;
        int k = known(s, x);
        if (k == 1) continue;
        if (k == 0) return false;
        if (!addGroup(s, x)) return false;
        if (!(x & 1) && G.isAndNode(x >> 1)) { wl.push_back(G.n[x >> 1].a); wl.push_back(G.n[x >> 1].b); continue; }
        if ((x & 1) && G.isAndNode(x >> 1)) {
            Lit p = G.n[x >> 1].a, q = G.n[x >> 1].b;
            int kp = deepKnown(s, p), kq = deepKnown(s, q);
            if (kp == 0 || kq == 0) continue;
            if (kp == 1) { wl.push_back(NOT(q)); continue; }
            if (kq == 1) { wl.push_back(NOT(p)); continue; }
        }
        if (!addLeaf(s, x, added, wl)) return false;
    }
    { auto it = std::lower_bound(s.pc.begin(), s.pc.end(), c & ~1u); if (it == s.pc.end() || (*it >> 1) != (c >> 1)) { s.pc.insert(it, c); added.push_back(c); } }
    if (refine && !added.empty() && !s.fr.empty()) {
        epoch++;
        if (markE.size() < G.n.size()) markE.resize(G.n.size() + G.n.size() / 2, 0);
        static std::vector<uint8_t> markV; if (markV.size() < markE.size()) markV.resize(markE.size(), 0);
        for (Lit x : added) { markE[x >> 1] = epoch; markV[x >> 1] = !(x & 1); }
        Frame& f = s.fr.back(); f.own();
        for (Val& v : f.d->regs) if (v.s) {
            bool hit = false; uint32_t n = v.s->n;
            for (uint32_t i = 0; i < n; i++) { uint32_t id = v.s->l[i] >> 1; if (id && markE[id] == epoch) { hit = true; break; } }
            if (!hit) continue;
            LV l(v.s->l, v.s->l + n);
            for (uint32_t i = 0; i < n; i++) { uint32_t id = l[i] >> 1; if (id && markE[id] == epoch) l[i] = (Lit)markV[id] ^ (l[i] & 1); }
            v = mk(l.data(), n);
        }
    }
    return true;
}
static Lit pcLit(const State& s) { Lit r = LT; for (size_t i = s.sp.size(); i-- > 0;) r = G.AND(s.sp[i], r); return r; }

static std::string where(State& s);
// ------------------------------------------------------------------ scheduler & merging
typedef std::vector<int> Key;
static std::map<Key, std::vector<State*>> queue_;
static size_t nQueued = 0;
static size_t nGlobals = 0;
static Key keyOf(const State& s, bool park) {
    Key k; k.reserve(s.fr.size() * 2 + 2);
    for (size_t i = 0; i < s.fr.size(); i++) {
        const Frame& f = s.fr[i]; const Block& b = f.f->blocks[f.block];
        if (i + 1 == s.fr.size() && park && b.park >= 0 && f.ip == 0) { k.push_back(b.park); k.push_back(b.order); }
        else { k.push_back(b.order); k.push_back(f.ip); }
    }
    return k;
}
static const std::vector<int>& liveRegs(const Frame& f, bool top) {
    const Block& b = f.f->blocks[f.block];
    if (top) return b.liveList;
    auto it = b.liveAt.find(f.ip - 1);
    if (it == b.liveAt.end()) die("liveAt");
    return it->second;
}
static bool sameVal(const Val& a, const Val& b) {
    if (a.s == b.s) return a.s ? true : a.c == b.c;
    if (!a.s || !b.s) return false;
    return a.s->n == b.s->n && !memcmp(a.s->l, b.s->l, a.s->n * sizeof(Lit));
}
struct VMap { VNode *a, *b; uint32_t prefix, ja, jb, jbFull; std::vector<int32_t> match; /* per suffix entry of b (oldest first): index of the equal entry of a, or -1 */ };
static bool sameVal(const Val& a, const Val& b);
static bool isVPtr(const State& s, const Val& v, int64_t& id) {
    if (v.sym()) return false;
    id = idOf(v.c);
    return id >= 0 && id < (int64_t)s.mem.size() && s.mem[id] && s.mem[id]->kind == 2;
}
static std::map<uint32_t, VMap> vmaps;
static void buildVMaps(const State& a, const State& b) {
    vmaps.clear();
    size_t n = std::min(a.mem.size(), b.mem.size());
    for (size_t i = 0; i < n; i++) {
        Obj *x = a.mem[i], *y = b.mem[i];
        if (x == y || !x || !y || x->kind != 2 || y->kind != 2 || x->vl == y->vl) continue;
        VNode *p = x->vl, *q = y->vl;
        while (p != q) { if ((p ? p->len : 0) >= (q ? q->len : 0)) p = p->prev; else q = q->prev; }
        uint32_t pre = p ? p->len : 0;
        VMap& m = vmaps[i]; m = {x->vl, y->vl, pre, (x->vl ? x->vl->len : 0) - pre, (y->vl ? y->vl->len : 0) - pre, 0, {}};
        m.jbFull = m.jb;
        if (m.ja && m.jb) { // equal entries share one slot
            auto hv = [](const Val& v) { uint64_t h = v.c * 0x9e3779b97f4a7c15ULL; if (v.s) for (uint32_t k = 0; k < v.s->n; k++) h = (h ^ v.s->l[k]) * 0xbf58476d1ce4e5b9ULL, h ^= h >> 29; return h; };
            std::unordered_multimap<uint64_t, int32_t> idx; std::vector<VNode*> ea(m.ja), eb(m.jb);
            VNode* r = m.a; for (uint32_t k = m.ja; k-- > 0; r = r->prev) { ea[k] = r; if (!r->hole) idx.emplace(hv(r->data), k); }
            r = m.b; for (uint32_t k = m.jb; k-- > 0; r = r->prev) eb[k] = r;
            m.match.assign(m.jb, -1); uint32_t un = 0;
            for (uint32_t k = 0; k < m.jb; k++) { if (eb[k]->hole) { un++; continue; } auto rg = idx.equal_range(hv(eb[k]->data)); for (auto it = rg.first; it != rg.second; ++it) if (sameVal(ea[it->second]->data, eb[k]->data)) { m.match[k] = it->second; idx.erase(it); break; } if (m.match[k] < 0) un++; }
            m.jb = un;
        }
    }
}
static bool mapVPtr(uint32_t id, uint32_t elem, uint64_t ca, uint64_t cb, uint64_t& out) {
    auto it = vmaps.find(id);
    int64_t oa = offOf(ca), ob = offOf(cb);
    if (it == vmaps.end()) { out = ca; return ca == cb; }
    const VMap& m = it->second;
    int64_t ra = oa % elem, rb = ob % elem; int64_t ia = oa / elem, ib = ob / elem;
    if (ra != rb) return false;
    int64_t n2 = m.prefix + m.ja + m.jb;
    int64_t al = ia, ah = ia, bl, bh;
    if (ia == (int64_t)(m.prefix + m.ja)) ah = n2;
    else if (ia > (int64_t)(m.prefix + m.ja)) al = ah = ia + m.jb; // ahead of the end: stays relative to the end
    if (ib < (int64_t)m.prefix) bl = bh = ib;
    else if (ib == (int64_t)m.prefix && m.jbFull) { bl = ib; bh = m.jb == m.jbFull ? ib + m.ja : ib; }
    else if (ib == (int64_t)(m.prefix + m.jbFull)) { bl = bh = n2; if (m.jbFull == 0) bl = m.prefix; }
    else if (ib > (int64_t)(m.prefix + m.jbFull)) bl = bh = ib - m.jbFull + m.ja + m.jb;
    else if (m.jb != m.jbFull) return false;
    else bl = bh = ib + m.ja;
    int64_t hi = std::min(ah, bh), lo = std::max(al, bl);
    if (lo > hi) return false;
    out = addrOf(id, hi * elem + ra);
    return true;
}
static bool canMerge(const State& a, const State& b) {
    if (noMerge) return false;
    if (a.fr.size() != b.fr.size()) return false;
    for (size_t i = 0; i < a.fr.size(); i++) {
        const Frame &x = a.fr[i], &y = b.fr[i];
        if (x.f != y.f || x.block != y.block || x.ip != y.ip || x.retReg != y.retReg) return false;
        if (x.allocas != y.allocas) return false;
    }
    buildVMaps(a, b);
    for (size_t i = 0; i < a.fr.size(); i++) {
        const Frame &x = a.fr[i], &y = b.fr[i];
        if (x.d == y.d && vmaps.empty()) continue;
        for (int r : liveRegs(x, i + 1 == a.fr.size())) {
            const Val &u = x.d->regs[r], &v = y.d->regs[r];
            int64_t id;
            if (!vmaps.empty() && x.f->rw[r] == 64 && isVPtr(a, u, id) && !v.sym() && idOf(v.c) == id) {
                uint64_t o; if (!mapVPtr(id, a.mem[id]->elem, u.c, v.c, o)) return false;
                continue;
            }
            if (u.s == v.s && u.c == v.c) continue;
            if (!x.f->idx[r]) continue;
            if (sameVal(u, v)) continue;
            if (!u.sym() || !v.sym()) return false;
        }
    }
    if (a.mem.size() != b.mem.size()) return false;
    for (size_t i = 0; i < a.mem.size(); i++) {
        Obj *x = a.mem[i], *y = b.mem[i];
        if (x == y) continue;
        if (!x || !y) return false;
        if (x->size != y->size || x->kind != y->kind) return false;
        if (x->kind == 2) continue;
        if (i >= nGlobals && (memPartition || !vmaps.empty())) {
            for (size_t p = 0; p < x->pages.size(); p++) {
                Page *g = x->pages[p], *h = y->pages[p];
                if (g == h) continue;
                for (unsigned wd = 0; wd < PG; wd += 8) {
                    Val u = loadBits(a, x, p * PG + wd, 64), v = loadBits(b, y, p * PG + wd, 64);
                    if (u.sym() || v.sym() || u.c == v.c) continue;
                    int64_t id;
                    if (!vmaps.empty() && isVPtr(a, u, id) && idOf(v.c) == id) { uint64_t o; if (!mapVPtr(id, a.mem[id]->elem, u.c, v.c, o)) return false; continue; }
                    if (memPartition) {
                        // words that look like lengths or pointers partition the states
                        bool up = (u.c >> 32) && idOf(u.c) < (int64_t)a.mem.size() && offOf(u.c) >= 0 && offOf(u.c) < (1 << 20);
                        bool vp = (v.c >> 32) && idOf(v.c) < (int64_t)b.mem.size() && offOf(v.c) >= 0 && offOf(v.c) < (1 << 20);
                        if (up || vp) return false;
                        if (x->name && !strcmp(x->name, "part") ) return false;
                        // std::string-like: previous word is a pointer
                        if (wd >= 8 || p > 0) {
                            size_t o2 = p * PG + wd - 8;
                            Val q = loadBits(a, x, o2, 64);
                            if (!q.sym() && (q.c >> 32) && idOf(q.c) < (int64_t)a.mem.size() && a.mem[idOf(q.c)] && u.c < 4096 && v.c < 4096) return false;
                        }
                    }
                }
            }
        }
    }
    return true;
}
static Val muxVal(Lit sel, const Val& a, const Val& b, unsigned w) {
    Lit x[2048], y[2048];
    if (w > 2048) die("mux width");
    toL(a, w, x); toL(b, w, y);
    for (unsigned i = 0; i < w; i++) x[i] = x[i] == y[i] ? x[i] : G.MUX(sel, x[i], y[i]);
    return mk(x, w);
}
static bool restricted = false;   // a path was cut by an assumption or an allowed exception
static State* inFlight = nullptr; // the state being executed (not in the queue)
static uint64_t nDropped = 0; static std::map<std::string, uint64_t> keptAt; static std::string coverWhy; static std::string where(State& s);
static bool disjointFrom(const State& x, const std::vector<Lit>& com) {
    size_t i = 0; while (i < com.size() && i < x.sp.size() && com[i] == x.sp[i]) i++;
    if (i == com.size() || i == x.sp.size()) return false;
    if (x.sp[i] == NOT(com[i])) return true;
    for (size_t j = i; j < com.size(); j++) for (size_t k = i; k < x.sp.size(); k++) if (x.sp[k] == NOT(com[j])) return true;
    return false;
}
static bool coversAll(const std::vector<Lit>& com, const State& a, const State& b) {
    if (inFlight && inFlight != &a && inFlight != &b && !disjointFrom(*inFlight, com)) { if (verbose) coverWhy = "inflight " + where(*inFlight); return false; }
    for (auto& q : queue_) for (State* x : q.second) if (x != &a && x != &b && !disjointFrom(*x, com)) { if (verbose) coverWhy = where(*x); return false; }
    return true;
}
static std::map<std::string, uint64_t> dbgMerge;
// merge b into a (a survives)
static void mergeInto(State& a, State& b) {
    nMerges++;
    std::vector<Lit> com, da, db, kn;
    std::set_intersection(a.pc.begin(), a.pc.end(), b.pc.begin(), b.pc.end(), std::back_inserter(kn));
    { // common prefix first, then order-insensitive intersection of the remainders
        size_t i = 0; while (i < a.sp.size() && i < b.sp.size() && a.sp[i] == b.sp[i]) i++;
        com.assign(a.sp.begin(), a.sp.begin() + i);
        std::set<Lit> sb(b.sp.begin() + i, b.sp.end()), sc;
        for (size_t k = i; k < a.sp.size(); k++) if (sb.count(a.sp[k])) { com.push_back(a.sp[k]); sc.insert(a.sp[k]); } else da.push_back(a.sp[k]);
        for (size_t k = i; k < b.sp.size(); k++) if (!sc.count(b.sp[k])) db.push_back(b.sp[k]);
    }
    if (da.empty() && db.empty()) { fprintf(stderr, "A %s\nB %s\n sp %zu %zu pc %zu %zu\n", where(a).c_str(), where(b).c_str(), a.sp.size(), b.sp.size(), a.pc.size(), b.pc.size()); for (size_t k = a.sp.size() > 5 ? a.sp.size() - 5 : 0; k < a.sp.size(); k++) fprintf(stderr, "%u %u\n", a.sp[k], b.sp[k]); for (size_t i = 0; i < a.fr.size(); i++) for (int r : liveRegs(a.fr[i], i + 1 == a.fr.size())) if (!sameVal(a.fr[i].d->regs[r], b.fr[i].d->regs[r])) { const Val &u = a.fr[i].d->regs[r], &v = b.fr[i].d->regs[r]; fprintf(stderr, "frame %zu reg %d: %d %llu | %d %llu\n", i, r, u.sym(), (unsigned long long)u.c, v.sym(), (unsigned long long)v.c); }
        for (auto& e : a.gc) fprintf(stderr, "ga %d %llx\n", e.first, (unsigned long long)e.second.w[0]); for (auto& e : b.gc) fprintf(stderr, "gb %d %llx\n", e.first, (unsigned long long)e.second.w[0]);
        die("merge of identical path conditions"); }
    std::vector<std::pair<int, Aig::TT>> ngc;
    for (auto& e : a.gc) for (auto& g : b.gc) if (e.first == g.first) { Aig::TT t; bool same = true; for (int k = 0; k < 4; k++) { t.w[k] = e.second.w[k] | g.second.w[k]; if (t.w[k] != G.groups[e.first].care.w[k]) same = false; } if (!same) ngc.push_back({e.first, t}); }
    // prefer a single complementary literal as the selector
    Lit sel = LF; bool got = false;
    for (Lit x : da) if (std::find(db.begin(), db.end(), NOT(x)) != db.end()) { sel = x; got = true; break; }
    // or a literal decided one way by b's conditions and the other way by what is known in a (and vice versa)
    for (size_t k = db.size(), n = 0; !got && k-- > 0 && n < 6; n++) if (deepKnown(a, db[k]) == 0) { sel = NOT(db[k]); got = true; }
    for (size_t k = da.size(), n = 0; !got && k-- > 0 && n < 6; n++) if (deepKnown(b, da[k]) == 0) { sel = da[k]; got = true; }
    Lit ca = LT, cb = LT;
    for (size_t k = da.size(); k-- > 0;) ca = G.AND(da[k], ca);
    for (size_t k = db.size(); k-- > 0;) cb = G.AND(db[k], cb);
    a.gc.swap(ngc);
    if (!got) sel = da.empty() ? NOT(cb) : db.empty() ? ca : da.size() <= db.size() ? ca : NOT(cb);
    buildVMaps(a, b);
    for (size_t i = 0; i < a.fr.size(); i++) {
        Frame &x = a.fr[i], &y = b.fr[i];
        if (x.d == y.d && vmaps.empty()) continue;
        bool top = i + 1 == a.fr.size();
        FrameData* n = new FrameData{1, {}};
        n->regs.resize(x.f->nregs);
        for (int r : liveRegs(x, top)) {
            const Val &u = x.d->regs[r], &v = y.d->regs[r];
            int64_t id;
            if (!vmaps.empty() && x.f->rw[r] == 64 && isVPtr(a, u, id) && !v.sym() && idOf(v.c) == id) { uint64_t o = 0; mapVPtr(id, a.mem[id]->elem, u.c, v.c, o); n->regs[r] = Val(o); continue; }
            n->regs[r] = sameVal(u, v) ? u : muxVal(sel, u, v, x.f->rw[r]);
        }
        x.rel(); x.d = n;
    }
    for (size_t i = 0; i < a.mem.size(); i++) {
        Obj *x = a.mem[i], *y = b.mem[i];
        if (x == y) continue;
        if (x->kind == 2) {
            auto it = vmaps.find(i);
            if (it == vmaps.end()) continue;
            const VMap& m = it->second;
            std::vector<VNode*> ea, eb;
            VNode* p = m.a; for (uint32_t k = 0; k < m.ja; k++) { ea.push_back(p); p = p->prev; }
            VNode* q = m.b; for (uint32_t k = 0; k < m.jbFull; k++) { eb.push_back(q); q = q->prev; }
            VNode* tip = p; uint32_t len = m.prefix;
            std::vector<Lit> pb(m.ja, LF); std::reverse(eb.begin(), eb.end());
            for (size_t k = 0; k < m.match.size(); k++) if (m.match[k] >= 0) pb[m.match[k]] = eb[k]->present;
            size_t ka = 0;
            for (auto r = ea.rbegin(); r != ea.rend(); ++r, ++ka) tip = new VNode{tip, ++len, G.MUX(sel, (*r)->present, pb[ka]), (*r)->data, (*r)->hole};
            for (size_t k = 0; k < eb.size(); k++) if (m.match.empty() || m.match[k] < 0) tip = new VNode{tip, ++len, G.AND(eb[k]->present, NOT(sel)), eb[k]->data, eb[k]->hole};
            wobj(a, i)->vl = tip;
            continue;
        }
        Obj* o = nullptr;
        for (size_t p = 0; p < x->pages.size(); p++) {
            Page *g = x->pages[p], *h = y->pages[p];
            if (g == h) continue;
            if (!o) { o = wobj(a, i); if (o != x) { g = o->pages[p]; } x = o; }
            g = o->pages[p];
            if (g->conc && h->conc) {
                uint8_t *u = ((CPage*)g)->b, *v = ((CPage*)h)->b;
                if (!memcmp(u, v, PG)) continue;
                if (!vmaps.empty() && i >= nGlobals) {
                    // remap virtual list pointers held in memory
                    for (unsigned wd = 0; wd < PG; wd += 8) {
                        uint64_t cu, cv; memcpy(&cu, ((CPage*)o->pages[p])->b + wd, 8); memcpy(&cv, v + wd, 8);
                        int64_t id;
                        if (cu != cv && isVPtr(a, Val(cu), id) && idOf(cv) == id) {
                            uint64_t r = 0; mapVPtr(id, a.mem[id]->elem, cu, cv, r);
                            memcpy(wconc(o, p)->b + wd, &r, 8);
                            // make both sides equal
                            CPage* hp = (CPage*)h; if (hp->rc > 1) { CPage* n2 = new CPage(*hp); n2->rc = 1; Obj* yo = wobj(b, i); hp->rc--; yo->pages[p] = n2; h = n2; y = yo; v = n2->b; }
                            memcpy(((CPage*)h)->b + wd, &r, 8);
                        }
                    }
                    v = ((CPage*)h)->b;
                    if (!memcmp(((CPage*)o->pages[p])->b, v, PG)) continue;
                }
                uint8_t oldv[PG]; memcpy(oldv, ((CPage*)o->pages[p])->b, PG);
                SPage* sp = wsym(o, p);
                for (unsigned k = 0; k < PG; k++) if (oldv[k] != v[k]) for (unsigned t = 0; t < 8; t++) sp->l[k * 8 + t] = G.MUX(sel, (oldv[k] >> t) & 1, (v[k] >> t) & 1);
            } else {
                SPage* sp = wsym(o, p);
                for (unsigned k = 0; k < PG * 8; k++) {
                    Lit v = h->conc ? (Lit)((((CPage*)h)->b[k / 8] >> (k % 8)) & 1) : ((SPage*)h)->l[k];
                    if (sp->l[k] != v) sp->l[k] = G.MUX(sel, sp->l[k], v);
                }
            }
        }
    }
    a.pc = kn; a.sp = com;
    Lit un = G.OR(ca, cb);
    // If no other live state can lie in the region of the common conditions, whatever a and b do not cover of it is
    // infeasible or reported separately: the union is then implied and need not be kept.
    if (un != LT && !restricted && coversAll(com, a, b)) { if (known(a, un) < 0) { auto it = std::lower_bound(a.pc.begin(), a.pc.end(), un & ~1u); if (it == a.pc.end() || (*it >> 1) != (un >> 1)) a.pc.insert(it, un); } nDropped++; }
    else { if (verbose && un != LT) keptAt[where(a) + " || " + coverWhy]++; addCond(a, un, false, true); }
    a.parked = a.parked || b.parked;
}
static size_t maxQueue = 20000;
static void enqueue(State* s, bool park = false) {
    if (park) s->parked = true;
    Key k = keyOf(*s, s->parked);
    auto& v = queue_[k];
    Frame& f = s->fr.back();
    if (f.ip == 0 && f.f->blocks[f.block].merge && !v.empty()) {
        for (State* o : v) if (canMerge(*o, *s)) { mergeInto(*o, *s); delete s; return; }
    }
    v.push_back(s); nQueued++;
    if (nQueued > maxQueue) die("too many states");
}

// ------------------------------------------------------------------ reporting
static std::string where(State& s) {
    std::string r;
    for (size_t i = s.fr.size(); i-- > 0 && r.size() < 600;) {
        const Frame& f = s.fr[i]; const Block& b = f.f->blocks[f.block]; int ip = i + 1 == s.fr.size() ? f.ip : f.ip - 1; std::string ln;
        if (ip >= 0 && ip < (int)b.ins.size() && b.ins[ip].llvmInst) { const Instruction* I = (const Instruction*)b.ins[ip].llvmInst; if (const DebugLoc& d = I->getDebugLoc()) { ln = ":" + std::to_string(d.getLine()); for (DILocation* p = d->getInlinedAt(); p; p = p->getInlinedAt()) ln += "/" + std::to_string(p->getLine()); } }
        r += demangle(f.f->name).substr(0, 60) + ln; r += " < "; }
    return r;
}
static void errorAt(State& s, const std::string& what) {
    if (verbose) fprintf(stderr, "error-at: %s @ %s\n", what.c_str(), where(s).c_str());
    if (s.pc.empty() && assumptions.empty()) die(what + " @ " + where(s));
    errorsAt.push_back({what + " @ " + where(s), 0, pcLit(s), assumptions.size()});
}
static void memError(State& s, Lit cond, const std::string& what) {
    if (!checkMem) return;
    obligs.push_back({"memory-safety: " + what + " @ " + where(s), 0, G.AND(pcLit(s), cond), assumptions.size()});
}

struct Killed {};
struct Forked {};
static void doEdge(Frame& f, int e);
static double concF(const Val& v, unsigned w); static Val mkF(double d, unsigned w);
// ---- C++ exceptions: unwinding to the nearest handler or cleanup
static std::map<std::string, int> typeIds; static std::vector<std::string> typeNames;
static int typeId(const std::string& m) { std::string n = m.compare(0, 2, "_Z") == 0 ? demangle(m) : m; auto it = typeIds.find(n); if (it != typeIds.end()) return it->second; typeNames.push_back(n); return typeIds[n] = (int)typeNames.size(); }
static bool catches(int thrown, const std::string& h) {
    std::string handler = demangle(h);
    static const std::map<std::string, std::string> base = {{"typeinfo for std::runtime_error", "typeinfo for std::exception"}, {"typeinfo for std::logic_error", "typeinfo for std::exception"}, {"typeinfo for std::bad_alloc", "typeinfo for std::exception"}, {"typeinfo for std::out_of_range", "typeinfo for std::logic_error"}, {"typeinfo for std::invalid_argument", "typeinfo for std::logic_error"}, {"typeinfo for std::length_error", "typeinfo for std::logic_error"}, {"typeinfo for std::domain_error", "typeinfo for std::logic_error"}, {"typeinfo for std::range_error", "typeinfo for std::runtime_error"}, {"typeinfo for std::overflow_error", "typeinfo for std::runtime_error"}};
    for (std::string t = typeNames[thrown - 1];;) { if (t == handler) return true; auto it = base.find(t); if (it == base.end()) return false; t = it->second; }
}
// does this frame, stopped at an invoke, stop the exception in flight?  sel: selector of the handler, 0 for a cleanup
static bool stops(State* s, const Frame& f, bool cleanups, int& sel) {
    const Block& b = f.f->blocks[f.block];
    if (f.ip < 1 || f.ip >= (int)b.ins.size()) return false;
    const Inst& x = b.ins[f.ip];
    if (x.op != O_BR || !x.llvmInst) return false;
    auto* iv = dyn_cast<InvokeInst>((const Instruction*)x.llvmInst); if (!iv) return false;
    const LandingPadInst* lp = iv->getLandingPadInst();
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (!lp->isCatch(i)) { sel = 0; return true; }
        auto* g = dyn_cast<GlobalVariable>(lp->getClause(i)->stripPointerCasts());
        if (!g) { sel = typeId("catch-all"); return true; }
        if (catches(s->excType, g->getName().str())) { sel = typeId(g->getName().str()); return true; }
    }
    sel = 0; return cleanups && lp->isCleanup();
}
static void unwind(State* s) { // returns only if nothing handles the exception
    int sel; bool handled = false;
    for (size_t i = s->fr.size(); i-- > 0 && !handled;) handled = stops(s, s->fr[i], false, sel);
    if (getenv("SYMX_EXC")) fprintf(stderr, "throw type %s handled %d ip %d frames %zu\n", typeNames[s->excType - 1].c_str(), handled, s->fr.back().ip, s->fr.size());
    if (!handled) return;
    while (!stops(s, s->fr.back(), true, sel)) { Frame& f = s->fr.back(); for (size_t i = f.allocas.size(); i-- > 0;) freeObj(*s, f.allocas[i]); s->fr.pop_back(); }
    State* t = new State(*s); t->id = ++nStates; t->excSel = sel;
    Frame& f = t->fr.back(); f.own(); const Inst& x = f.f->blocks[f.block].ins[f.ip];
    doEdge(f, x.e1); f.block = x.t1; f.ip = 0;
    queue_[keyOf(*t, false)].push_back(t); nQueued++;
    throw Forked();
}

static inline const Val& gv(const Frame& f, int i) { return i >= 0 ? f.d->regs[i] : f.f->consts[-i - 1]; }

// Fork the state on the feasible values of register r (operand of the current instruction) and re-execute.
static void forkOnValues(State* s, int r, unsigned w, size_t limit) {
    Frame& f = s->fr.back();
    if (r < 0) die("forkOnValues on constant");
    Val v = f.d->regs[r];
    LV l(w); toL(v, w, l.data());
    std::vector<uint64_t> vals;
    std::vector<Lit> base(assumptions.begin(), assumptions.end());
    base.insert(base.end(), s->pc.begin(), s->pc.end());
    for (;;) {
        int res = sat->solve(base);
        if (res == 0) break;
        if (res < 0) die("unknown in value enumeration");
        // evaluate under model
        std::unordered_map<uint32_t, bool> memo;
        std::function<bool(Lit)> ev = [&](Lit x) -> bool {
            uint32_t id = x >> 1; bool r2;
            if (id == 0) r2 = false;
            else if (G.isVar(id)) r2 = sat->model[G.n[id].b];
            else { auto it = memo.find(id); if (it != memo.end()) r2 = it->second; else { bool p = ev(G.n[id].a); r2 = p && ev(G.n[id].b); memo[id] = r2; } }
            return r2 ^ (x & 1);
        };
        uint64_t c = 0; for (unsigned i = 0; i < w; i++) c |= (uint64_t)ev(l[i]) << i;
        vals.push_back(c);
        if (vals.size() > limit) die("too many values in enumeration @ " + where(*s));
        Val cv(c); LV k(w); toL(cv, w, k.data());
        base.push_back(NOT(cEq(l.data(), k.data(), w)));
    }
    std::sort(vals.begin(), vals.end());
    for (uint64_t c : vals) {
        State* t = new State(*s); t->id = ++nStates;
        Val cv(c); LV k(w); toL(cv, w, k.data());
        t->fr.back().own();
        t->fr.back().d->regs[r] = cv;
        if (!addCond(*t, cEq(l.data(), k.data(), w))) { delete t; continue; }
        t->fr.back().d->regs[r] = cv;
        nForks++;
        queue_[keyOf(*t, false)].push_back(t); nQueued++;
    }
    throw Forked();
}

struct Addr { uint32_t id; int64_t off; bool symOff; LV bits; };
static void forkAddr(State* s, int reg, Addr& A, unsigned size, uint64_t hi);
// Resolve an address; symbolic offsets within one object are allowed.
static Addr resolve(State* s, const Inst& x, int reg, const Val& a, unsigned size) {
    Addr r; r.symOff = false;
    if (!a.sym()) {
        int64_t id = idOf(a.c);
        if (id < 0 || id >= (int64_t)s->mem.size() || !s->mem[id] || s->mem[id]->kind == 1) {
            if (!s->pc.empty() || !assumptions.empty()) { memError(*s, LT, "access through invalid pointer"); throw Killed(); }
            die("invalid pointer @ " + where(*s));
        }
        r.id = id; r.off = offOf(a.c);
        Obj* o = s->mem[id];
        if (o->kind != 2 && (r.off < 0 || r.off + (int64_t)size > (int64_t)o->size)) {
            if (s->pc.empty() && assumptions.empty()) die("out of bounds access (" + std::string(o->name ? o->name : "?") + " off " + std::to_string(r.off) + " size " + std::to_string(o->size) + ") @ " + where(*s));
            memError(*s, LT, std::string("out-of-bounds access to ") + (o->name ? o->name : "object")); throw Killed();
        }
        return r;
    }
    // all upper bits constant?
    for (unsigned i = 32; i < 64; i++) if (!isC(a.s->l[i])) forkOnValues(s, reg, 64, 4096);
    uint64_t hi = 0; for (unsigned i = 32; i < 64; i++) hi |= (uint64_t)a.s->l[i] << i;
    int64_t id = idOf(hi);
    if (id < 0 || id >= (int64_t)s->mem.size() || !s->mem[id] || s->mem[id]->kind != 0) { memError(*s, LT, "access through invalid symbolic pointer"); throw Killed(); }
    r.id = id; r.symOff = true; r.off = 0; r.bits.assign(a.s->l, a.s->l + 32);
    if (forkIdx && reg >= 0) { forkAddr(s, reg, r, size, hi); }
    return r;
}
// enumerate candidate offsets of a symbolic address: assignments to its distinct symbolic literals
struct Cand { int64_t off; Lit g; };
static void enumCands(State* s, const Addr& A, unsigned size, std::vector<Cand>& out, Lit& inb) {
    Obj* o = s->mem[A.id];
    std::vector<uint32_t> vars;
    for (Lit l : A.bits) if (l > 1 && std::find(vars.begin(), vars.end(), l >> 1) == vars.end()) vars.push_back(l >> 1);
    // recursion from high bits to low bits with range pruning
    inb = LF;
    std::function<void(int, uint64_t, Lit, std::map<uint32_t, bool>&)> rec = [&](int bit, uint64_t cur, Lit g, std::map<uint32_t, bool>& as) {
        if (g == LF) return;
        if (out.size() > 200000) die("symbolic address with too many candidates @ " + where(*s));
        if (bit < 0) {
            int64_t off = (int64_t)cur - (int64_t)OFFBASE;
            if (off < 0 || off + (int64_t)size > (int64_t)o->size) return;
            out.push_back({off, g}); return;
        }
        // prune: range [cur, cur + 2^(bit+1)-1]
        int64_t lo = (int64_t)cur - (int64_t)OFFBASE, hi = lo + ((1LL << (bit + 1)) - 1);
        if (hi < 0 || lo + (int64_t)size > (int64_t)o->size) return;
        Lit l = A.bits[bit];
        if (isC(l)) { rec(bit - 1, cur | ((uint64_t)l << bit), g, as); return; }
        auto it = as.find(l >> 1);
        if (it != as.end()) { bool v = it->second ^ (l & 1); rec(bit - 1, cur | ((uint64_t)v << bit), g, as); return; }
        int k = known(*s, l);
        if (k >= 0) { rec(bit - 1, cur | ((uint64_t)k << bit), g, as); return; }
        for (int v = 0; v < 2; v++) {
            as[l >> 1] = v ^ (l & 1);
            rec(bit - 1, cur | ((uint64_t)v << bit), G.AND(g, v ? l : NOT(l)), as);
        }
        as.erase(l >> 1);
    };
    std::map<uint32_t, bool> as;
    rec(31, 0, LT, as);
    // in-bounds condition
    LV off(33), cst(33);
    for (int i = 0; i < 32; i++) off[i] = A.bits[i];
    off[32] = LF;
    uint64_t lo = OFFBASE, hi = OFFBASE + o->size - size;
    for (int i = 0; i < 33; i++) cst[i] = (lo >> i) & 1;
    Lit geLo = NOT(cUlt(off.data(), cst.data(), 33));
    for (int i = 0; i < 33; i++) cst[i] = (hi >> i) & 1;
    Lit leHi = NOT(cUlt(cst.data(), off.data(), 33));
    inb = o->size >= size ? G.AND(geLo, leHi) : LF;
}
// policy "forkidx": split the path on the (few) possible offsets instead of multiplexing
static void forkAddr(State* s, int reg, Addr& A, unsigned size, uint64_t hi) {
    std::vector<Cand> cs; Lit inb; enumCands(s, A, size, cs, inb);
    if (cs.size() > 1024 && forkIdx > 64) forkOnValues(s, reg, 64, 256); // correlated address bits: let the solver enumerate
    if (cs.size() > (size_t)forkIdx) return;
    if (inb != LT) memError(*s, NOT(inb), std::string("out-of-bounds access to ") + (s->mem[A.id]->name ? s->mem[A.id]->name : "object"));
    for (auto& c : cs) {
        State* t = new State(*s); t->id = ++nStates;
        t->fr.back().own();
        if (!addCond(*t, c.g)) { delete t; continue; }
        t->fr.back().d->regs[reg] = Val(hi | (uint64_t)(c.off + OFFBASE));
        nForks++; queue_[keyOf(*t, false)].push_back(t); nQueued++;
    }
    throw Forked();
}
static Val loadParts(State* s, Obj* o, int64_t off, const Inst& x) {
    if (x.parts.size() == 1) return loadBits(*s, o, off, x.w);
    LV l(x.w, LF);
    for (auto& p : x.parts) { Val v = loadBits(*s, o, off + p.byteoff, p.bits); for (unsigned i = 0; i < p.bits; i++) l[p.bitoff + i] = v.bit(i); }
    return mk(l.data(), x.w);
}
static Val doLoad(State* s, const Inst& x, int reg, const Val& a) {
    Addr A = resolve(s, x, reg, a, x.imm);
    Obj* o = s->mem[A.id];
    if (!A.symOff) {
        if (o->kind == 2) {
            int64_t idx = A.off / o->elem, rem = A.off % o->elem;
            VNode* n = o->vl;
            if (!n || idx < 0 || idx >= n->len) { memError(*s, LT, "read past list end"); throw Killed(); }
            while (n->len != idx + 1) n = n->prev;
            int k = known(*s, n->present);
            if (k != 1) die("read of a conditionally present list slot @ " + where(*s));
            LV l(x.w); for (unsigned i = 0; i < x.w; i++) l[i] = n->data.bit(rem * 8 + i);
            return mk(l.data(), x.w);
        }
        return loadParts(s, o, A.off, x);
    }
    // symbolic offset: multiplexer tree over the address bits
    Lit inb = LT;
    {
        std::vector<Cand> cs;
        enumCands(s, A, x.imm, cs, inb);
        if (cs.empty()) { memError(*s, LT, "out-of-bounds symbolic access"); throw Killed(); }
        if (inb != LT) memError(*s, NOT(inb), std::string("out-of-bounds access to ") + (o->name ? o->name : "object"));
    }
    bool have; std::map<uint32_t, bool> as; Val res;
    std::function<bool(int, uint64_t, std::map<uint32_t, bool>&, LV&)> rec = [&](int bit, uint64_t cur, std::map<uint32_t, bool>& am, LV& out) -> bool {
        if (bit < 0) {
            int64_t off = (int64_t)cur - (int64_t)OFFBASE;
            if (off < 0 || off + x.imm > (int64_t)o->size) return false;
            Val v = loadParts(s, o, off, x); out.resize(x.w); toL(v, x.w, out.data()); return true;
        }
        int64_t lo = (int64_t)cur - (int64_t)OFFBASE, hi = lo + ((1LL << (bit + 1)) - 1);
        if (hi < 0 || lo + x.imm > (int64_t)o->size) return false;
        Lit l = A.bits[bit];
        if (l > 1) { int k = known(*s, l); if (k >= 0) l = k; }
        if (isC(l)) return rec(bit - 1, cur | ((uint64_t)l << bit), am, out);
        auto it = am.find(l >> 1);
        if (it != am.end()) { bool v = it->second ^ (l & 1); return rec(bit - 1, cur | ((uint64_t)v << bit), am, out); }
        LV o0, o1;
        am[l >> 1] = (l & 1); bool h0 = rec(bit - 1, cur, am, o0);
        am[l >> 1] = !(l & 1); bool h1 = rec(bit - 1, cur | (1ULL << bit), am, o1);
        am.erase(l >> 1);
        if (!h0 && !h1) return false;
        if (!h0) { out.swap(o1); return true; }
        if (!h1) { out.swap(o0); return true; }
        out.resize(x.w);
        for (unsigned i = 0; i < x.w; i++) out[i] = G.MUX(l, o1[i], o0[i]);
        return true;
    };
    LV out; have = rec(31, 0, as, out);
    if (!have) { memError(*s, LT, "out-of-bounds symbolic access"); throw Killed(); }
    return mk(out.data(), x.w);
}
static void storeParts(State* s, uint32_t id, int64_t off, const Inst& x, const Val& v) {
    if (x.parts.size() == 1) { storeBits(*s, id, off, x.w, v); return; }
    for (auto& p : x.parts) { LV l(p.bits); for (unsigned i = 0; i < p.bits; i++) l[i] = v.bit(p.bitoff + i); storeBits(*s, id, off + p.byteoff, p.bits, mk(l.data(), p.bits)); }
}
static void doStore(State* s, const Inst& x, int reg, const Val& a, const Val& v) {
    Addr A = resolve(s, x, reg, a, x.imm);
    if (!A.symOff) {
        Obj* o = s->mem[A.id];
        if (o->kind == 2) {
            o = wobj(*s, A.id);
            uint32_t len = o->vl ? o->vl->len : 0;
            int64_t idx = A.off / o->elem, rem = A.off % o->elem;
            if (A.off < 0 || idx * (int64_t)o->elem >= (int64_t)o->size * 64) { memError(*s, LT, "list store out of range"); throw Killed(); }
            while (idx > len && idx <= len + 4) { o->vl = new VNode{o->vl, len + 1, LF, Val((uint64_t)0), true}; len++; } // slots filled out of order
            if (idx == len) { LV l(o->elem * 8, LF); for (unsigned i = 0; i < x.w; i++) l[rem * 8 + i] = v.bit(i); o->vl = new VNode{o->vl, len + 1, LT, mk(l.data(), l.size())}; return; }
            if (idx < len) {
                // rewrite a slot that is certainly present
                std::vector<VNode*> tail; VNode* n = o->vl; while (n->len != idx + 1) { tail.push_back(n); n = n->prev; }
                if (!n->hole && known(*s, n->present) != 1) die("store to a conditionally present list slot @ " + where(*s));
                LV l(o->elem * 8); toL(n->data, l.size(), l.data()); for (unsigned i = 0; i < x.w; i++) l[rem * 8 + i] = v.bit(i);
                VNode* t = new VNode{n->prev, n->len, n->hole ? LT : n->present, mk(l.data(), l.size())};
                for (auto it = tail.rbegin(); it != tail.rend(); ++it) t = new VNode{t, (*it)->len, (*it)->present, (*it)->data, (*it)->hole};
                o->vl = t; return;
            }
            { std::string o9; raw_string_ostream os(o9); ((const Instruction*)x.llvmInst)->print(os); die("list store beyond the end idx " + std::to_string(idx) + " len " + std::to_string(o->vl ? o->vl->len : 0) + " " + o9 + " @ " + where(*s)); }
        }
        storeParts(s, A.id, A.off, x, v); return;
    }
    std::vector<Cand> cs; Lit inb;
    enumCands(s, A, x.imm, cs, inb);
    Obj* o = s->mem[A.id];
    if (inb != LT) memError(*s, NOT(inb), std::string("out-of-bounds write to ") + (o->name ? o->name : "object"));
    if (cs.empty()) throw Killed();
    if (cs.size() > 4096) die("symbolic store with too many candidates @ " + where(*s));
    for (auto& c : cs) {
        Val old = loadParts(s, s->mem[A.id], c.off, x);
        storeParts(s, A.id, c.off, x, muxVal(c.g, v, old, x.w));
    }
}

static bool readCStr(State* s, const Val& p, std::string& out) {
    if (p.sym()) return false;
    int64_t id = idOf(p.c), off = offOf(p.c);
    if (id < 0 || id >= (int64_t)s->mem.size() || !s->mem[id]) return false;
    for (;;) { if (off >= (int64_t)s->mem[id]->size) return false; Val b = loadBits(*s, s->mem[id], off, 8); if (b.sym()) return false; if (!b.c) return true; out += (char)b.c; off++; }
}
static void pushFrame(State* s, Func* f, int retReg) {
    ensureDecoded(f);
    if (s->fr.size() > 400) die("call stack too deep");
    Frame n; n.f = f; n.retReg = retReg; n.d = new FrameData{1, {}}; n.d->regs.resize(f->nregs);
    n.objMark = s->mem.size();
    if (!initPhase) f->execCount++;
    s->fr.push_back(std::move(n));
}
static std::map<std::pair<std::string, uint64_t>, Lit> ufs;

#include "intr.inc"

static double concF(const Val& v, unsigned w) { if (w == 32) { float f; uint32_t b = v.c; memcpy(&f, &b, 4); return f; } double d; uint64_t b = v.c; memcpy(&d, &b, 8); return d; }
static Val mkF(double d, unsigned w) { if (w == 32) { float f = d; uint32_t b; memcpy(&b, &f, 4); return Val((uint64_t)b); } uint64_t b; memcpy(&b, &d, 8); return Val(b); }

static void doEdge(Frame& f, int e) {
    if (e < 0) return;
    auto& mv = f.f->edges[e];
    if (mv.empty()) return;
    if (mv.size() == 1) { f.d->regs[mv[0].dst] = gv(f, mv[0].src); return; }
    Val tmp[64]; std::vector<Val> big; Val* t = tmp;
    if (mv.size() > 64) { big.resize(mv.size()); t = big.data(); }
    for (size_t i = 0; i < mv.size(); i++) t[i] = gv(f, mv[i].src);
    for (size_t i = 0; i < mv.size(); i++) f.d->regs[mv[i].dst] = std::move(t[i]);
}
static bool cttzSymbolic(const State& s) {
    const Frame& f = s.fr.back(); const Block& b = f.f->blocks[f.block];
    const Inst& x = b.ins[0];
    if (x.op == O_CBR) {
        bool any = false;
        for (size_t k = 0; k < x.args.size(); k++) {
            const Val& v = gv(f, x.args[k]);
            if (!v.sym()) { if (v.c != 0) return false; continue; }
            for (unsigned i = 0; i < x.aw[k]; i++) { Lit l = v.s->l[i]; if (l == LT) return false; if (l != LF) any = true; }
        }
        return any;
    }
    const Val& v = gv(f, x.a);
    if (!v.sym()) return false;
    for (unsigned i = 0; i < x.w; i++) { Lit l = v.s->l[i]; if (l == LF) continue; if (l == LT) return false; return true; }
    return false;
}
// Run a state until it ends or is queued.
static void runState(State* s) {
    bool just = true; // may pass the first merge point without queueing
    uint64_t budget = 0;
    for (;;) {
        Frame* f = &s->fr.back();
        f->own();
        Block* b = &f->f->blocks[f->block];
        if (f->ip == 0 && b->merge && !just) {
            if (b->cttz && b->park >= 0 && cttzSymbolic(*s)) { enqueue(s, true); return; }
            s->parked = false;
            if (nQueued > 0) { enqueue(s); return; }
        }
        just = false; s->parked = false;
        // execute instructions of this block
        bool next = false;
        while (!next) {
            const Inst& x = b->ins[f->ip];
            nInst++;
            if ((++budget & 0xfff) == 0 && now() > deadline) die("timeout");
            std::vector<Val>& R = f->d->regs;
            switch (x.op) {
            case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: case O_AND: case O_OR: case O_XOR:
                R[x.dst] = evalBin(x.op, x.w, x.vec, x.ew, gv(*f, x.a), gv(*f, x.b)); f->ip++; break;
            case O_ICMP: {
                const Val &A = gv(*f, x.a), &B = gv(*f, x.b); int64_t id;
                if (!A.sym() && !B.sym() && A.c != B.c && x.w2 == 64 && (x.pred == CmpInst::ICMP_EQ || x.pred == CmpInst::ICMP_NE) && isVPtr(*s, A, id) && idOf(B.c) == id) {
                    // list cursors: equal iff no slot between them is present
                    Obj* o = s->mem[id]; int64_t i0 = std::min(offOf(A.c), offOf(B.c)) / o->elem, i1 = std::max(offOf(A.c), offOf(B.c)) / o->elem;
                    Lit any = LF; for (VNode* n = o->vl; n; n = n->prev) if ((int64_t)n->len - 1 >= i0 && (int64_t)n->len - 1 < i1) any = G.OR(any, n->present);
                    Lit r = x.pred == CmpInst::ICMP_NE ? any : NOT(any); R[x.dst] = mk(&r, 1); f->ip++; break;
                }
                R[x.dst] = evalCmp(x.pred, x.w2, x.vec, x.ew, A, B); f->ip++; break;
            }
            case O_SELECT: {
                const Val& c = gv(*f, x.a);
                if (!x.vec) {
                    Lit l = c.bit(0); if (l > 1) { int k = known(*s, l); if (k >= 0) l = k; }
                    if (isC(l)) R[x.dst] = gv(*f, l ? x.b : x.c);
                    else {
                        const Val &u = gv(*f, x.b), &v = gv(*f, x.c);
                        if (sameVal(u, v)) { Val t = u; R[x.dst] = std::move(t); }
                        else if (f->f->idx[x.dst] && x.w == 64 && !u.sym() && !v.sym() && (u.c >> 32) && (v.c >> 32) && (u.c >> 32) != (v.c >> 32)) {
                            // pointers to different objects: fork
                            State* t = new State(*s); t->id = ++nStates; nForks++;
                            bool ok1 = addCond(*t, NOT(l)); if (ok1) { t->fr.back().own(); t->fr.back().d->regs[x.dst] = gv(t->fr.back(), x.c); t->fr.back().ip++; queue_[keyOf(*t, false)].push_back(t); nQueued++; } else delete t;
                            if (!addCond(*s, l)) throw Killed();
                            f = &s->fr.back(); f->d->regs[x.dst] = gv(*f, x.b);
                        } else R[x.dst] = muxVal(l, u, v, x.w);
                    }
                } else {
                    LV p(x.w), q(x.w), o(x.w); toL(gv(*f, x.b), x.w, p.data()); toL(gv(*f, x.c), x.w, q.data());
                    for (unsigned i = 0; i < x.w; i++) o[i] = G.MUX(c.bit(i / x.ew), p[i], q[i]);
                    R[x.dst] = mk(o.data(), x.w);
                }
                f->ip++; break;
            }
            case O_TRUNC: case O_ZEXT: case O_SEXT: {
                const Val& A = gv(*f, x.a);
                if (!x.vec) {
                    if (!A.sym() && x.w <= 64) {
                        uint64_t c = A.c;
                        if (x.op == O_SEXT) c = (uint64_t)((int64_t)(c << (64 - x.w2)) >> (64 - x.w2));
                        R[x.dst] = Val(c & maskw(x.w));
                    } else {
                        LV l(std::max(x.w, x.w2)); toL(A, x.w2, l.data());
                        for (unsigned i = x.w2; i < x.w; i++) l[i] = x.op == O_SEXT ? l[x.w2 - 1] : LF;
                        R[x.dst] = mk(l.data(), x.w);
                    }
                } else {
                    unsigned se = x.ew, n = x.w2 / se, de = x.w / n; LV o(x.w);
                    for (unsigned e = 0; e < n; e++) for (unsigned i = 0; i < de; i++) o[e * de + i] = i < se ? A.bit(e * se + i) : x.op == O_SEXT ? A.bit(e * se + se - 1) : LF;
                    R[x.dst] = mk(o.data(), x.w);
                }
                f->ip++; break;
            }
            case O_MOV: { Val t = gv(*f, x.a); R[x.dst] = std::move(t); f->ip++; break; }
            case O_LOAD: { Val v = doLoad(s, x, x.a, gv(*f, x.a)); R[x.dst] = std::move(v); f->ip++; break; }
            case O_STORE: doStore(s, x, x.a, gv(*f, x.a), gv(*f, x.b)); f->ip++; break;
            case O_ALLOCA: {
                const Val& n = gv(*f, x.a); if (n.sym()) forkOnValues(s, x.a, 64, 64);
                uint32_t id = newObj(*s, x.imm * n.c, false, "local"); f->allocas.push_back(id); R[x.dst] = Val(addrOf(id)); f->ip++; break;
            }
            case O_GEP: {
                const Val& A = gv(*f, x.a); bool sy = A.sym(); for (int a : x.args) sy |= gv(*f, a).sym();
                if (!sy) {
                    uint64_t p = A.c + x.imm;
                    for (size_t i = 0; i < x.args.size(); i++) { uint64_t v = gv(*f, x.args[i]).c; unsigned w = x.aw[i]; if (w < 64) v = (uint64_t)((int64_t)(v << (64 - w)) >> (64 - w)); p += v * (uint64_t)x.imms[i]; }
                    R[x.dst] = Val(p);
                } else {
                    Val p = evalBin(O_ADD, 64, false, 64, A, Val((uint64_t)x.imm));
                    for (size_t i = 0; i < x.args.size(); i++) {
                        const Val& v = gv(*f, x.args[i]); unsigned w = x.aw[i]; LV l(64); toL(v, w, l.data()); for (unsigned k = w; k < 64; k++) l[k] = l[w - 1];
                        Val t = evalBin(O_MUL, 64, false, 64, mk(l.data(), 64), Val((uint64_t)x.imms[i]));
                        p = evalBin(O_ADD, 64, false, 64, p, t);
                    }
                    R[x.dst] = p;
                }
                f->ip++; break;
            }
            case O_FALL: f->block = x.t0; f->ip = 0; next = true; break;
            case O_BR: doEdge(*f, x.e0); f->block = x.t0; f->ip = 0; next = true; break;
            case O_CBR: {
                Lit l = gv(*f, x.a).bit(0);
                if (l > 1 && !x.args.empty()) { // emptiness test of a bit set that the loop consumes
                    Lit pick = LF; bool nz = false;
                    for (size_t k = 0; k < x.args.size() && !nz && pick == LF; k++) {
                        const Val& v = gv(*f, x.args[k]);
                        if (!v.sym()) { if (v.c != 0) nz = true; continue; }
                        for (unsigned i = 0; i < x.aw[k]; i++) { Lit q = v.s->l[i]; if (q == LF) continue; if (q == LT) { nz = true; break; } int kn = known(*s, q); if (kn == 0) continue; if (kn == 1) { nz = true; break; } pick = q; break; }
                    }
                    if (nz || pick == LF) l = nz == (bool)x.sub ? LT : LF;
                    else {
                        nCtForks++;
                        State* t = new State(*s); t->id = ++nStates;
                        size_t n1 = s->sp.size(); bool ok1 = addCond(*s, pick), ok2 = addCond(*t, NOT(pick));
                        if (!ok2 && ok1) s->sp.resize(n1); else if (ok2 && !ok1) t->sp.resize(n1);
                        if (ok2) enqueue(t, b->park >= 0); else delete t;
                        if (!ok1) throw Killed();
                        l = x.sub ? LT : LF; f = &s->fr.back();
                    }
                }
                if (l > 1) { int k = deepKnown(*s, l); if (k >= 0) l = k; }
                if (isC(l)) { doEdge(*f, l ? x.e0 : x.e1); f->block = l ? x.t0 : x.t1; f->ip = 0; next = true; break; }
                nForks++;
                if (verbose && s->sp.size() > 5000) { const Inst& q = x; std::string o; raw_string_ostream os(o); ((const Instruction*)q.llvmInst)->print(os); fprintf(stderr, "runaway: %s l=%u %s\n", o.c_str(), l, where(*s).c_str()); std::function<void(Lit, int)> pr = [&](Lit z, int d) { fprintf(stderr, "%*s%s%u known=%d\n", d, "", z & 1 ? "!" : "", z >> 1, known(*s, z)); if (d < 8 && known(*s, z) < 0 && G.isAndNode(z >> 1)) { pr(G.n[z >> 1].a, d + 1); pr(G.n[z >> 1].b, d + 1); } }; pr(l, 0); die("runaway"); }
                State* t = new State(*s); t->id = ++nStates;
                size_t n1 = s->sp.size();
                bool ok2 = addCond(*t, NOT(l)), ok1 = addCond(*s, l);
                if (!ok2 && ok1) s->sp.resize(n1); else if (ok2 && !ok1) t->sp.resize(n1); // implied, not a choice
                if (ok2) { Frame& g = t->fr.back(); g.own(); doEdge(g, x.e1); g.block = x.t1; g.ip = 0; enqueue(t); } else delete t;
                if (!ok1) throw Killed();
                f = &s->fr.back(); doEdge(*f, x.e0); f->block = x.t0; f->ip = 0;
                enqueue(s); return;
            }
            case O_SWITCH: {
                const Val& v = gv(*f, x.a);
                if (!v.sym()) {
                    int t = x.t0, e = x.e0; for (size_t i = 0; i < x.imms.size(); i++) if ((uint64_t)x.imms[i] == v.c) { t = x.targets[i]; e = x.edges[i]; break; }
                    doEdge(*f, e); f->block = t; f->ip = 0; next = true; break;
                }
                LV l(x.w2), k(x.w2); toL(v, x.w2, l.data()); Lit any = LF;
                // group cases per (target, edge)
                std::map<std::pair<int, int>, Lit> grp; std::map<std::pair<int, int>, std::vector<uint64_t>> vals;
                for (size_t i = 0; i < x.imms.size(); i++) {
                    toL(Val((uint64_t)x.imms[i]), x.w2, k.data()); Lit e = cEq(l.data(), k.data(), x.w2); any = G.OR(any, e);
                    auto key = std::make_pair(x.targets[i], (int)i); grp[key] = e; vals[key].push_back(x.imms[i]);
                }
                for (auto& g : grp) {
                    if (known(*s, g.second) == 0) continue;
                    State* t = new State(*s); t->id = ++nStates; nForks++;
                    if (!addCond(*t, g.second)) { delete t; continue; }
                    Frame& q = t->fr.back(); q.own(); if (x.a >= 0) q.d->regs[x.a] = Val(vals[g.first][0]);
                    doEdge(q, x.edges[g.first.second]); q.block = x.targets[g.first.second]; q.ip = 0; enqueue(t);
                }
                if (!addCond(*s, NOT(any))) throw Killed();
                f = &s->fr.back(); doEdge(*f, x.e0); f->block = x.t0; f->ip = 0; enqueue(s); return;
            }
            case O_CTTZ: {
                Val v = gv(*f, x.a);
                if (!v.sym()) { R[x.dst] = Val(v.c ? (uint64_t)__builtin_ctzll(v.c) : (uint64_t)x.w); f->ip++; break; }
                unsigned i = 0; while (i < x.w && (v.s->l[i] == LF || known(*s, v.s->l[i]) == 0)) i++;
                if (i == x.w) { R[x.dst] = Val((uint64_t)x.w); f->ip++; break; }
                if (v.s->l[i] == LT || known(*s, v.s->l[i]) == 1) { R[x.dst] = Val((uint64_t)i); f->ip++; break; }
                Lit l = v.s->l[i]; nCtForks++;
                State* t = new State(*s); t->id = ++nStates;
                size_t n1 = s->sp.size(); bool ok1 = addCond(*s, l), ok2 = addCond(*t, NOT(l));
                if (!ok2 && ok1) s->sp.resize(n1); else if (ok2 && !ok1) t->sp.resize(n1);
                if (ok2) { enqueue(t, b->park >= 0); } else delete t;
                if (!ok1) throw Killed();
                f = &s->fr.back(); f->d->regs[x.dst] = Val((uint64_t)i); f->ip++;
                break;
            }
            case O_CALL: {
                Func* c;
                if (x.callee >= 0) c = funcs[x.callee];
                else {
                    const Val& v = gv(*f, x.a); if (v.sym()) forkOnValues(s, x.a, 64, 256);
                    int64_t id = idOf(v.c); if (id < 0 || id >= (int64_t)s->mem.size() || !s->mem[id] || s->mem[id]->kind != 1) { errorAt(*s, "call through bad pointer"); throw Killed(); }
                    c = funcs[s->mem[id]->fn];
                }
                if (c->decl && !c->intr) { errorAt(*s, "call to unmodelled external " + c->name); throw Killed(); }
                if (c->intr) { Inst y = x; y.intr = c->intr; y.op = O_INTR; f->ip++; doIntr(s, y); f = &s->fr.back(); break; }
                f->ip++;
                size_t ci = s->fr.size() - 1;
                pushFrame(s, c, x.dst);
                Frame& cf = s->fr[ci]; Frame& nf = s->fr.back();
                for (size_t i = 0; i < x.args.size() && (int)i < c->nargs; i++) nf.d->regs[i] = gv(cf, x.args[i]);
                next = true; break;
            }
            case O_INTR: f->ip++; doIntr(s, x); f = &s->fr.back(); f->own(); break;
            case O_RET: {
                Val v; if (x.imm) v = gv(*f, x.a);
                int rr = f->retReg;
                for (size_t i = f->allocas.size(); i-- > 0;) freeObj(*s, f->allocas[i]);
                s->fr.pop_back();
                if (s->fr.empty()) { delete s; return; }
                f = &s->fr.back(); f->own();
                if (rr >= 0) f->d->regs[rr] = std::move(v);
                b = &f->f->blocks[f->block];
                break;
            }
            case O_UNREACH: if (s->sp.empty() && assumptions.empty()) die("unreachable code reached @ " + where(*s)); obligs.push_back({"undefined-behaviour: unreachable code reached @ " + where(*s), 0, pcLit(*s), assumptions.size()}); throw Killed();
            case O_LPAD: { LV l(x.w, LF); for (unsigned i = 0; i < 64; i++) l[i] = (s->excPtr >> i & 1) ? LT : LF; for (unsigned i = 0; i < 32; i++) l[64 + i] = (s->excSel >> i & 1) ? LT : LF; R[x.dst] = mk(l.data(), x.w); f->ip++; break; }
            case O_RESUME: unwind(s); die("resume without a handler @ " + where(*s));
            case O_TRAP: throw Killed();
            case O_EXTV: { const Val& A = gv(*f, x.a); LV l(x.w); for (unsigned i = 0; i < x.w; i++) l[i] = A.bit(x.imm + i); R[x.dst] = mk(l.data(), x.w); f->ip++; break; }
            case O_INSV: { LV l(x.w); toL(gv(*f, x.a), x.w, l.data()); const Val& B = gv(*f, x.b); for (unsigned i = 0; i < x.w2; i++) l[x.imm + i] = B.bit(i); R[x.dst] = mk(l.data(), x.w); f->ip++; break; }
            case O_EXTE: {
                const Val &A = gv(*f, x.a), &I = gv(*f, x.b); LV l(x.w);
                if (!I.sym()) { for (unsigned i = 0; i < x.w; i++) l[i] = A.bit(I.c * x.ew + i); }
                else { unsigned n = x.w2 / x.ew; for (unsigned i = 0; i < x.w; i++) l[i] = A.bit(i); LV il(64); toL(I, 64, il.data()); for (unsigned e = 1; e < n; e++) { LV k(64); toL(Val((uint64_t)e), 64, k.data()); Lit q = cEq(il.data(), k.data(), 8); for (unsigned i = 0; i < x.w; i++) l[i] = G.MUX(q, A.bit(e * x.ew + i), l[i]); } }
                R[x.dst] = mk(l.data(), x.w); f->ip++; break;
            }
            case O_INSE: {
                const Val& I = gv(*f, x.c);
                if (I.sym()) {
                    LV l(x.w), il(64); toL(gv(*f, x.a), x.w, l.data()); toL(I, 64, il.data()); const Val& B = gv(*f, x.b);
                    for (unsigned e = 0; e < x.w / x.ew; e++) { LV k(64); toL(Val((uint64_t)e), 64, k.data()); Lit q = cEq(il.data(), k.data(), 8); for (unsigned i = 0; i < x.ew; i++) l[e * x.ew + i] = G.MUX(q, B.bit(i), l[e * x.ew + i]); }
                    R[x.dst] = mk(l.data(), x.w); f->ip++; break;
                }
                LV l(x.w); toL(gv(*f, x.a), x.w, l.data()); const Val& B = gv(*f, x.b); for (unsigned i = 0; i < x.ew; i++) l[I.c * x.ew + i] = B.bit(i); R[x.dst] = mk(l.data(), x.w); f->ip++; break;
            }
            case O_SHUF: {
                const Val &A = gv(*f, x.a), &B = gv(*f, x.b); unsigned n = x.w2 / x.ew; LV l(x.w, LF);
                for (size_t k = 0; k < x.args.size(); k++) { int m = x.args[k]; if (m < 0) continue; for (unsigned i = 0; i < x.ew; i++) l[k * x.ew + i] = (unsigned)m < n ? A.bit(m * x.ew + i) : B.bit((m - n) * x.ew + i); }
                R[x.dst] = mk(l.data(), x.w); f->ip++; break;
            }
            case O_FP: {
                const Val &A = gv(*f, x.a), &B = gv(*f, x.b);
                bool bin = x.pred == Instruction::FAdd || x.pred == Instruction::FSub || x.pred == Instruction::FMul || x.pred == Instruction::FDiv || x.pred == Instruction::FRem || x.pred == Instruction::FCmp;
                if (x.vec || A.sym() || (bin && B.sym()) || x.w2 > 64 || x.w > 64) { errorAt(*s, "symbolic floating point"); throw Killed(); }
                Val r;
                switch (x.pred) {
                case Instruction::FAdd: r = mkF(concF(A, x.w2) + concF(B, x.w2), x.w); break;
                case Instruction::FSub: r = mkF(concF(A, x.w2) - concF(B, x.w2), x.w); break;
                case Instruction::FMul: r = mkF(concF(A, x.w2) * concF(B, x.w2), x.w); break;
                case Instruction::FDiv: r = mkF(concF(A, x.w2) / concF(B, x.w2), x.w); break;
                case Instruction::FNeg: r = mkF(-concF(A, x.w2), x.w); break;
                case Instruction::SIToFP: r = mkF((double)((int64_t)(A.c << (64 - x.w2)) >> (64 - x.w2)), x.w); break;
                case Instruction::UIToFP: r = mkF((double)A.c, x.w); break;
                case Instruction::FPToSI: r = Val((uint64_t)(int64_t)concF(A, x.w2) & maskw(x.w)); break;
                case Instruction::FPToUI: r = Val((uint64_t)concF(A, x.w2) & maskw(x.w)); break;
                case Instruction::FPExt: case Instruction::FPTrunc: r = mkF(concF(A, x.w2), x.w); break;
                case Instruction::FCmp: {
                    double a = concF(A, x.w2), c = concF(B, x.w2); bool un = a != a || c != c, t = false;
                    switch (x.sub) { case CmpInst::FCMP_OEQ: t = a == c; break; case CmpInst::FCMP_UNE: t = un || a != c; break; case CmpInst::FCMP_OLT: t = a < c; break; case CmpInst::FCMP_OGT: t = a > c; break; case CmpInst::FCMP_OLE: t = a <= c; break; case CmpInst::FCMP_OGE: t = a >= c; break; case CmpInst::FCMP_ONE: t = !un && a != c; break; case CmpInst::FCMP_UEQ: t = un || a == c; break; case CmpInst::FCMP_ULT: t = un || a < c; break; case CmpInst::FCMP_UGT: t = un || a > c; break; case CmpInst::FCMP_ULE: t = un || a <= c; break; case CmpInst::FCMP_UGE: t = un || a >= c; break; case CmpInst::FCMP_UNO: t = un; break; case CmpInst::FCMP_ORD: t = !un; break; }
                    r = Val((uint64_t)t); break;
                }
                default: errorAt(*s, "floating point op"); throw Killed();
                }
                R[x.dst] = r; f->ip++; break;
            }
            default: errorAt(*s, std::string("unsupported instruction ") + (x.name ? x.name : "?")); throw Killed();
            }
            if (!next) { b = &s->fr.back().f->blocks[s->fr.back().block]; f = &s->fr.back(); }
        }
    }
}
static void runAll(State* s0) {
    nQueued = 0; queue_.clear();
    queue_[keyOf(*s0, false)].push_back(s0); nQueued = 1;
    while (nQueued) {
        auto it = queue_.begin();
        while (it->second.empty()) it = queue_.erase(it);
        State* s = it->second.back(); it->second.pop_back(); nQueued--;
        if (it->second.empty()) queue_.erase(it);
        if (verbose) { static double last = 0; double t = now(); if (t - last > 3) { last = t; fprintf(stderr, "  t=%.1f q=%zu pc=%zu sp=%zu nodes=%zu %s\n", t - tStart, nQueued, s->pc.size(), s->sp.size(), G.n.size(), where(*s).c_str()); if (getenv("SYMX_Q")) { for (auto& q : queue_) for (State* x : q.second) fprintf(stderr, "     q sp=%zu park=%d %s\n", x->sp.size(), x->parked, where(*x).c_str()); std::string best; uint64_t bc = 0; for (auto& k : keptAt) if (k.second > bc) bc = k.second, best = k.first; fprintf(stderr, "     kept x%llu %s\n", (unsigned long long)bc, best.c_str()); } } }
        inFlight = s;
        try { runState(s); }
        catch (Killed&) { delete s; }
        catch (Forked&) { delete s; }
    }
}
#include "main.inc"
